"""Inline assembly: the x86-64 subset the project uses, executed in the same domain.

Obligations generated per asm statement: every register written is an output or a declared clobber,
memory is only written with a "memory" clobber, an output that is written before all inputs are read
must not share a register with one (early clobber; checked against register sharing with inputs),
every access is in bounds.
"""
import re
from . import ir
from .ir import Unsupported
from .poly import *

R64 = ["rax","rbx","rcx","rdx","rsi","rdi","rbp","rsp"] + ["r%d" % i for i in range(8, 16)]
SUB = {}
for r in R64:
    SUB[r] = (r, 64)
    if r[1:].isdigit():
        SUB[r + "d"] = (r, 32); SUB[r + "w"] = (r, 16); SUB[r + "b"] = (r, 8)
    else:
        SUB["e" + r[1:]] = (r, 32); SUB[r[1:]] = (r, 16)
for r in "abcd": SUB[r + "l"] = ("r%sx" % r, 8)
for r, q in (("sil", "rsi"), ("dil", "rdi"), ("bpl", "rbp")): SUB[r] = (q, 8)

_cache = {}

def expand_macros(text):
    """gas .macro/.endm with named arguments"""
    lines = [l.strip() for l in re.split(r"[;\n]", text)]
    macros = {}; out = []; cur = None
    for l in lines:
        l = re.sub(r"\s+", " ", l.strip())
        if not l: continue
        if l.startswith(".macro"):
            mm = re.match(r"\.macro ([\w.]+)[ ,]*(.*)", l)
            cur = (mm.group(1), [a.strip() for a in mm.group(2).split(",") if a.strip()], []); continue
        if l.startswith(".endm"):
            macros[cur[0]] = cur; cur = None; continue
        if l.startswith(".purgem"): continue
        if cur is not None: cur[2].append(l); continue
        out += expand_line(l, macros)
    return out
def expand_line(l, macros):
    op = l.split(" ")[0]
    if op in macros:
        nm, params, bodyl = macros[op]
        args = [a.strip() for a in l[len(op):].split(",")]
        res = []
        for b in bodyl:
            for p, a in sorted(zip(params, args), key=lambda t: -len(t[0])): b = b.replace("\\" + p, a)
            b = b.replace("\\()", "")
            res += expand_line(b, macros)
        return res
    return [l]

def split_ops(t):
    out = []; d = 0; cur = ""
    for ch in t:
        if ch == "(": d += 1
        if ch == ")": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def decode(tpl, cons):
    k = (tpl, cons)
    if k in _cache: return _cache[k]
    # template: $$ -> literal $, $N / ${N:m} -> operand pseudo registers
    def rep(m):
        if m.group(0) == "$$": return "\x01"
        n = m.group(1) or m.group(2); mod = m.group(3) or "q"
        return "%%op%s.%s" % (n, mod)
    t = re.sub(r"\$\$|\$(\d+)|\$\{(\d+)(?::(\w))?\}", rep, tpl).replace("\x01", "$")
    # dialect alternatives {att|intel}
    ins = []
    for l in expand_macros(t):
        l = re.sub(r"#.*", "", l).strip()
        if not l: continue
        if l.endswith(":"): ins.append(("label", [l[:-1]])); continue
        op, _, rest = l.partition(" ")
        ins.append((op.lower(), split_ops(rest)))
    cl = cons.split(",") if cons else []
    # constraints may contain commas inside braces: none used
    _cache[k] = (ins, cl)
    return _cache[k]

class Reg:
    __slots__ = ("n", "w")
    def __init__(s, n, w): s.n, s.w = n, w
class Mem:
    __slots__ = ("base", "idx", "scale", "disp")
    def __init__(s, b, i, sc, d): s.base, s.idx, s.scale, s.disp = b, i, sc, d

_opc = {}
def operand(t):
    r = _opc.get(t)
    if r is None: r = _opc[t] = _operand(t)
    return r
def _operand(t):
    if t[0] == "$":
        return int(t[1:], 0)
    if t[0] == "%" and "(" not in t:
        if t.startswith("%op"):
            n, m = t[1:].split("."); return Reg(n, {"q": 64, "k": 32, "w": 16, "b": 8}[m])
        if t[1:] not in SUB: raise Unsupported("asm operand %s" % t)
        return Reg(*SUB[t[1:]])
    m = re.match(r"^([-+*0-9a-fxA-F() ]*?)\(\s*(%[\w.]+)?\s*(?:,\s*(%[\w.]+)\s*(?:,\s*(\d+))?)?\s*\)$", t)
    if m:
        d = eval(m.group(1), {"__builtins__": {}}) if m.group(1).strip() else 0
        b = operand(m.group(2)).n if m.group(2) else None
        i = operand(m.group(3)).n if m.group(3) else None
        return Mem(b, i, int(m.group(4) or 1), d)
    raise Unsupported("asm operand %s" % t)

def execute(mc, x, args):
    from .exe import Ptr, Violation, VB
    tpl, cons, flags = x.x
    ins, cl = decode(tpl, cons)
    c = mc.c
    outs = []; ins_c = []; clob = set()
    for k in cl:
        if k.startswith("~{"): clob.add(k[2:-1])
        elif k.startswith("="): outs.append(k)
        else: ins_c.append(k)
    if any("*" in k for k in outs): raise Unsupported("asm memory output operands")
    if len(ins_c) != len(args): raise Unsupported("asm operands")
    regs = {}
    nout = len(outs)
    tied = {}
    vec_out = [k for k in outs if "x" in k]
    inregs = set()
    for i, (k, a) in enumerate(zip(ins_c, args)):
        name = "op%d" % (nout + i)
        k0 = k.strip("&%")
        if k0.isdigit():
            regs["op" + k0] = a; tied["op" + k0] = name; regs[name] = a
        elif k0.startswith("{"):
            r = k0[1:-1]; rr = SUB.get(r, (r, 64))[0]
            regs[rr] = a; regs[name] = a
        elif "*" in k0: raise Unsupported("asm memory input operand")
        else:
            regs[name] = a; inregs.add(name)
    st = getattr(mc, "asm_state", State)(mc, regs, x)
    outnames = {}
    for i, k in enumerate(outs):
        mm = re.match(r"=&?\{(\w+)\}", k)
        outnames["op%d" % i] = mm.group(1) if mm else None
    st.allowed = set("op%d" % i for i in range(nout)) | set(SUB[q][0] for q in clob if q in SUB) | \
                 set(SUB[v][0] for v in outnames.values() if v in SUB)
    st.early = set("op%d" % i for i, k in enumerate(outs) if "&" in k)
    st.shareable = {}   # outputs without & may share a register with an untied input
    st.inregs = inregs; st.tied = set(tied)
    st.memclob = "memory" in clob
    st.written_out = set()
    mc.asm_checks += 1
    for op, ops in ins: st.step(op, ops)
    if not outs: return None
    res = []
    for i, k in enumerate(outs):
        r = outnames["op%d" % i]
        v = st.r.get(SUB[r][0] if r else "op%d" % i, UNDEF)
        if isinstance(v, Undef): raise Violation("asm", "output operand %d never written at %s" % (i, mc.where()))
        res.append(v)
    if x.ty.k == "struct":
        return tuple(narrow(c, v, t) for v, t in zip(res, x.ty.e))
    return narrow(c, res[0], x.ty)

def narrow(c, v, t):
    if t.k == "int" and t.w < 64:
        if isinstance(v, int): return v & ((1 << t.w) - 1)
        if isinstance(v, W): return W(t.w, v.p, v.lo, v.hi)
    return v

KNOWN = {"mov","movabs","add","adc","adcx","adox","sub","sbb","cmp","inc","dec","xor","and","or","test","neg","not",
         "mul","imul","shl","shr","sal","sar","shld","shrd"}
class State:
    def __init__(s, mc, regs, x):
        s.mc, s.c, s.r, s.x = mc, mc.c, regs, x
        s.cf = s.of = s.zf = s.sf = UNDEF
    def fail(s, msg):
        from .exe import Violation
        raise Violation("asm", "%s at %s" % (msg, s.mc.where()))
    # -- operand access
    def get(s, o, w):
        from .exe import Ptr
        if isinstance(o, int): return o & ((1 << w) - 1)
        if isinstance(o, Reg):
            if o.n in s.inregs and s.written_out:
                bad = [q for q in s.written_out if q not in s.early and q not in s.tied]
                if bad: s.fail("input operand %s read after output %s was written without early clobber" % (o.n, bad[0]))
            v = s.r.get(o.n, UNDEF)
            if isinstance(v, Undef): s.fail("register %s read before it is set" % o.n)
            if o.w < 64 or w < 64:
                ww = min(o.w, w)
                if isinstance(v, int): return v & ((1 << ww) - 1)
                if isinstance(v, W): 
                    if v.w > ww: v = W(ww, v.p, v.lo, v.hi)
                    return v
            return v
        p = s.addr(o)
        v = s.mc.load_int(p, w // 8)
        if isinstance(v, Undef): s.mc.undef_reads.append(s.mc.where())
        return v
    def addr(s, o):
        from .exe import Ptr
        b = s.get(Reg(o.base, 64), 64)
        d = o.disp
        if o.idx is not None:
            i = s.get(Reg(o.idx, 64), 64)
            if not isinstance(i, int): raise Unsupported("asm symbolic index")
            d += i * o.scale
        if not isinstance(b, Ptr): s.fail("memory access through %r" % (b,))
        return Ptr(b.obj, b.off + d) if isinstance(b.off, int) else self_unsupported()
    def put(s, o, v, w):
        if isinstance(o, Mem):
            if not s.memclob: s.fail('memory written without a "memory" clobber')
            s.mc.store_int(s.addr(o), w // 8, v); return
        if o.n not in s.allowed: s.fail("register %s is written but not declared as output or clobber" % o.n)
        if o.n.startswith("op"): s.written_out.add(o.n)
        ww = o.w
        if ww == 32:
            if isinstance(v, W):
                v = s.c.norm(W(32, v.p, v.lo, v.hi)); v = W(64, v.p, v.lo, v.hi)
            elif isinstance(v, int): v &= 0xffffffff
        elif ww == 8:
            old = s.r.get(o.n, 0)
            if isinstance(v, W): v = s.c.norm(W(8, v.p, v.lo, v.hi))
            hi = s.mc.binop("and", old, (1 << 64) - 256, 64) if not isinstance(old, Undef) else UNDEF
            if isinstance(hi, Undef): s.fail("partial write of an unset register %s" % o.n)
            v = s.mc.binop("or", hi, W(64, v.p, v.lo, v.hi) if isinstance(v, W) else v, 64)
        elif isinstance(v, W) and v.w != 64: v = W(64, v.p, v.lo, v.hi)
        s.r[o.n] = v
    def num(s, v, w):
        if isinstance(v, Undef): s.fail("uninitialised value used")
        return s.c.tow(v, w)
    # -- arithmetic helpers
    def width(s, op, ops, suffixes="qlwb"):
        for o in ops:
            if isinstance(o, Reg) : return o.w
        return {"q": 64, "l": 32, "w": 16, "b": 8}.get(op[-1], 64)
    def addc(s, a, b, cin, w):
        if isinstance(a, Undef) or isinstance(b, Undef) or isinstance(cin, Undef): s.fail("uninitialised value or flag used")
        if isinstance(a, int) and isinstance(b, int) and isinstance(cin, int):
            t = a + b + cin; return t & ((1 << w) - 1), t >> w
        a = s.c.norm(s.num(a, w)); b = s.c.norm(s.num(b, w))
        f = W(w, padd(a.p, b.p), a.lo + b.lo, a.hi + b.hi)
        if isinstance(cin, int): f = W(w, padd(f.p, pconst(cin)), f.lo + cin, f.hi + cin)
        else: f = W(w, padd(f.p, cin.p), f.lo + max(0, cin.lo), f.hi + min(1, cin.hi))
        z, q = s.c.carry(f, w)
        return s.cst(z), s.flag(q)
    def subb(s, a, b, cin, w):
        if isinstance(a, Undef) or isinstance(b, Undef) or isinstance(cin, Undef): s.fail("uninitialised value or flag used")
        if isinstance(a, int) and isinstance(b, int) and isinstance(cin, int):
            t = a - b - cin; return t & ((1 << w) - 1), int(t < 0)
        a = s.c.norm(s.num(a, w)); b = s.c.norm(s.num(b, w))
        f = W(w, psub(a.p, b.p), a.lo - b.hi, a.hi - b.lo)
        if isinstance(cin, int): f = W(w, psub(f.p, pconst(cin)), f.lo - cin, f.hi - cin)
        else: f = W(w, psub(f.p, cin.p), f.lo - min(1, cin.hi), f.hi - max(0, cin.lo))
        z = s.c.norm(f)
        q = s.c.quot(psub(z.p, f.p), w)
        return s.cst(z), s.flag(q)
    def cst(s, v):
        if isinstance(v, W) and v.lo == v.hi: return v.lo
        return v
    def flag(s, q):
        if isinstance(q, int): return q
        return W(1, q.p, max(0, q.lo), min(1, q.hi))
    def setzf(s, v, w):
        s.zf = s.mc.icmp("eq", v, 0, w) if not isinstance(v, Undef) else UNDEF
    lazyz = None
    def step(s, op, ops):
        ops = [operand(o) for o in ops]
        w = s.width(op, ops[::-1])
        base = op if op in KNOWN or op[:-1] not in KNOWN else op[:-1]
        if op in ("mulx", "mulxq"):
            src, lo, hi = ops
            a = s.get(src, 64); b = s.get(Reg("rdx", 64), 64)
            l, h = s.mul(a, b)
            s.put(lo, l, 64); s.put(hi, h, 64); return
        if base in ("mov", "movabs"):
            v = s.get(ops[0], w)
            if w == 32 and isinstance(v, W): v = s.c.norm(W(32, v.p, v.lo, v.hi))
            s.put(ops[1], v, w); return
        if base in ("add", "adc", "adcx", "adox"):
            a = s.get(ops[1], w); b = s.get(ops[0], w)
            cin = 0 if base == "add" else s.of if base == "adox" else s.cf
            z, q = s.addc(a, b, cin, w)
            s.put(ops[1], z, w)
            if base == "adox": s.of = q
            elif base == "adcx": s.cf = q
            else: s.cf = q; s.of = UNDEF; s.res = z; s.zf = ("res", z, w)
            return
        if base in ("sub", "sbb", "cmp"):
            a = s.get(ops[1], w); b = s.get(ops[0], w)
            if base == "sbb" and isinstance(ops[0], Reg) and isinstance(ops[1], Reg) and ops[0].n == ops[1].n:
                if isinstance(s.cf, Undef): s.fail("carry flag used before it is set")
                v = s.cf
                z = ((1 << w) - 1) * v if isinstance(v, int) else W(w, pscale(v.p, (1 << w) - 1), 0, (1 << w) - 1)
                s.put(ops[1], z, w); s.of = UNDEF; s.zf = ("res", z, w); return
            z, q = s.subb(a, b, 0 if base != "sbb" else s.cf, w)
            if base != "cmp": s.put(ops[1], z, w)
            s.cf = q; s.of = UNDEF; s.zf = ("res", z, w); return
        if base in ("inc", "dec"):
            a = s.get(ops[0], w)
            z, q = (s.addc if base == "inc" else s.subb)(a, 1, 0, w)
            s.put(ops[0], z, w); s.of = UNDEF; s.zf = ("res", z, w); return
        if base in ("xor", "and", "or", "test"):
            if base == "xor" and isinstance(ops[0], Reg) and isinstance(ops[1], Reg) and ops[0].n == ops[1].n:
                s.put(ops[1], 0, w); s.cf = s.of = 0; s.zf = 1; return
            a = s.get(ops[1], w); b = s.get(ops[0], w)
            if base == "test" and isinstance(ops[0], Reg) and isinstance(ops[1], Reg) and ops[0].n == ops[1].n: z = a
            else: z = s.mc.binop("and" if base == "test" else base, a, b, w)
            if base != "test": s.put(ops[1], z, w)
            s.cf = s.of = 0; s.zf = ("res", z, w); return
        if base == "neg":
            a = s.get(ops[0], w); z, q = s.subb(0, a, 0, w)
            s.put(ops[0], z, w); s.cf = q; s.zf = ("res", z, w); s.of = UNDEF; return
        if base == "not":
            a = s.get(ops[0], w); s.put(ops[0], s.mc.binop("xor", a, (1 << w) - 1, w), w); return
        if base == "mul" and len(ops) == 1:
            a = s.get(ops[0], 64); b = s.get(Reg("rax", 64), 64)
            l, h = s.mul(a, b)
            s.put(Reg("rax", 64), l, 64); s.put(Reg("rdx", 64), h, 64); s.cf = s.of = s.zf = UNDEF; return
        if base == "imul":
            if len(ops) not in (2, 3): raise Unsupported("imul")
            a = s.get(ops[0], w); b = s.get(ops[1], w); d = ops[-1]
            v = s.mc.binop("mul", a, b, w)
            # CF = OF = the signed product does not fit
            A = s.c.norm(s.num(a, w)); B = s.c.norm(s.num(b, w)); h = 1 << (w - 1)
            fits = A.hi < h and B.hi < h and A.hi * B.hi < h
            if isinstance(v, W): v = s.c.norm(v)
            s.put(d, v, w); s.cf = s.of = 0 if fits else UNDEF; s.zf = UNDEF; return
        if base in ("shl", "shr", "sal", "sar") and len(ops) <= 2:
            n = ops[0] if len(ops) == 2 else 1
            if not isinstance(n, int): raise Unsupported("asm shift by register")
            d = ops[-1]; a = s.get(d, w)
            out = s.mc.bits(a, w - n, 1) if base in ("shl", "sal") else s.mc.bits(a, n - 1, 1)
            v = s.mc.binop({"shl": "shl", "sal": "shl", "shr": "lshr", "sar": "ashr"}[base], a, n, w)
            if isinstance(v, W): v = s.c.norm(v)
            s.put(d, v, w); s.cf = out; s.of = UNDEF; s.zf = ("res", v, w); return
        if base in ("shld", "shrd"):
            n, src, d = ops
            a = s.get(d, w); b = s.get(src, w)
            if base == "shld": 
                out = s.mc.bits(a, w - n, 1)
                v = s.mc.binop("or", s.normv(s.mc.binop("shl", a, n, w)), s.mc.binop("lshr", b, w - n, w), w)
            else:
                out = s.mc.bits(a, n - 1, 1)
                v = s.mc.binop("or", s.mc.binop("lshr", a, n, w), s.normv(s.mc.binop("shl", b, w - n, w)), w)
            if isinstance(v, W): v = s.c.norm(v)
            s.put(d, v, w); s.cf = out; s.of = UNDEF; s.zf = UNDEF; return
        if op in ("bt", "btq", "btr", "btrq", "bts", "btsq", "btc"):
            n = ops[0]; a = s.get(ops[1], w)
            if not isinstance(n, int): raise Unsupported("bt by register")
            b = s.mc.bits(a, n, 1)
            s.cf = b
            if op.startswith("btr"): s.put(ops[1], s.mc.binop("and", a, ((1 << w) - 1) ^ (1 << n), w), w)
            elif op.startswith("bts"): s.put(ops[1], s.mc.binop("or", a, 1 << n, w), w)
            return
        m = re.match(r"cmov(nz|ne|z|e|nc|ae|nb|c|b|ns|s)[ql]?$", op)
        if m:
            cc = s.cond(m.group(1))
            a = s.get(ops[1], w); b = s.get(ops[0], w)
            s.put(ops[1], s.mc.sel(cc, b, a, w), w); return
        m = re.match(r"set(nz|ne|z|e|nc|ae|c|b)$", op)
        if m:
            cc = s.cond(m.group(1))
            s.put(ops[0], W(8, cc.p, cc.lo, cc.hi) if isinstance(cc, W) else cc, 8); return
        if op == "clc": s.cf = 0; return
        if op == "stc": s.cf = 1; return
        if op in ("movzx", "movzbl", "movzbq", "movzbw"):
            v = s.get(ops[0], 8); s.put(ops[1], W(64, v.p, v.lo, v.hi) if isinstance(v, W) else v, 64); return
        if op.startswith("lea"):
            o = ops[0]; b = s.get(Reg(o.base, 64), 64) if o.base else 0
            i = s.get(Reg(o.idx, 64), 64) if o.idx else 0
            v = s.mc.binop("add", b, s.mc.binop("mul", i, o.scale, 64), 64) if o.idx else b
            s.put(ops[1], s.mc.binop("add", v, o.disp & ((1 << 64) - 1), 64), 64); return
        if op == "vpbroadcastq":
            v = s.get(ops[0], 64)
            s.r[ops[1].n] = (v,) * 4
            if ops[1].n not in s.allowed: s.fail("vector register written but not declared")
            return
        if base == "bswap" or op in ("bswapq", "bswapl"):
            d = ops[0]; a = s.get(d, w); s.put(d, s.mc.join([s.mc.bits(a, w - 8 - 8 * i, 8) for i in range(w // 8)], 8), w); return
        if op == "nop": return
        if op == "xchg":
            a = s.get(ops[0], w); b = s.get(ops[1], w); s.put(ops[0], b, w); s.put(ops[1], a, w); return
        raise Unsupported("asm instruction %s" % op)
    def normv(s, v): return s.c.norm(v) if isinstance(v, W) else v
    def cond(s, cc):
        if cc in ("c", "b"): f = s.cf
        elif cc in ("nc", "ae", "nb"): f = s.notf(s.cf)
        elif cc in ("s", "ns"):
            f = s.zf          # ("res", value, width) of the last flag-setting instruction
            if isinstance(f, tuple): f = s.mc.bits(f[1], f[2] - 1, 1)
            else: raise Unsupported("sign flag")
            if cc == "ns": f = s.notf(f)
        else:
            f = s.zf
            if isinstance(f, tuple): f = s.mc.icmp("eq", f[1], 0, f[2])
            if cc in ("nz", "ne"): f = s.notf(f)
        if isinstance(f, Undef): s.fail("flag used before it is set")
        return f
    def notf(s, f):
        if isinstance(f, Undef): s.fail("flag used before it is set")
        return s.c.lnot(f) if isinstance(f, W) else 1 - f
    def mul(s, a, b):
        if isinstance(a, int) and isinstance(b, int):
            t = a * b; return t & ((1 << 64) - 1), t >> 64
        a = s.c.norm(s.num(a, 64)); b = s.c.norm(s.num(b, 64))
        t = W(128, s.c.pmul(a.p, b.p), a.lo * b.lo, a.hi * b.hi)
        l, h = s.c.split(t, 64)
        return W(64, l.p, l.lo, l.hi), W(64, h.p, h.lo, h.hi)
