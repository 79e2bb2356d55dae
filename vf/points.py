"""Points of the Edwards curves: contracts of the point functions and the machine of their callers (C10-C13).

A point is a pair (x,y) of field elements; a representation is X=x*Z, Y=y*Z, T=x*y*Z with Z nonzero.
The contract of a point function says that the output represents the sum (double) given by the affine
addition law of the curve.  It is verified over the field contracts of fm.py for free x, y, Z of every
input and every lane: the coordinates of the output are expanded to polynomials over GF(p) and
    X3*(1+k) = Z3*(x1*y2+x2*y1),  Y3*(1-k) = Z3*(y1*y2+x1*x2),  T3*Z3 = X3*Y3,   k = d*x1*x2*y1*y2,
    Z3 = c * Z1^i * Z2^j * (1+k)^a * (1-k)^b  with a constant c != 0
are checked as identities (doublings: modulo the curve equation -x^2+y^2 = 1+d*x^2*y^2)."""
import time
from .core import *
from .fld import *
from .fe import FE, V
from . import fm, fieldspecs

class Curve:
    """twisted Edwards curve a*x^2+y^2 = 1+d*x^2*y^2 with base point of order l"""
    def __init__(s, name, f, a, d, l, B): s.name, s.f, s.a, s.d, s.l, s.B = name, f, a % f.p, d % f.p, l, B
    def add(s, P, Q):
        p = s.f.p; (x, y), (u, v) = P, Q; k = s.d * x * y * u * v % p
        return ((x * v + u * y) * pow(1 + k, p - 2, p) % p, (y * v - s.a * x * u) * pow(1 - k, p - 2, p) % p)
    def mul(s, n, P):
        p, a, d = s.f.p, s.a, s.d
        def add(U, W):
            (X, Y, Z), (x, y, z) = U, W; A = Z * z % p; B = A * A % p; C = X * x % p; D = Y * y % p; E = d * C * D % p; F = B - E; G = B + E
            return A * F * ((X + Y) * (x + y) - C - D) % p, A * G * (D - a * C) % p, F * G % p
        if n < 0: n = -n; P = s.neg(P)
        Q, W, k = (0, 1, 1), (P[0], P[1], 1), n
        while k:
            if k & 1: Q = add(Q, W)
            W = add(W, W); k >>= 1
        if Q[2]: i = pow(Q[2], -1, p); return Q[0] * i % p, Q[1] * i % p
        Q = (0, 1)                                  # an exceptional case of the formulas
        while n:
            if n & 1: Q = s.add(Q, P)
            P = s.add(P, P); n >>= 1
        return Q
    def neg(s, P): return (-P[0] % s.f.p, P[1])
    def on(s, P): x, y = P; return (s.a * x * x + y * y - 1 - s.d * x * x * y * y) % s.f.p == 0
P255, P448 = F255.p, F448.p
L255 = (1 << 252) + 27742317777372353535851937790883648493
L448 = (1 << 446) - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
def _x255(y, bit):
    p = P255; d = -121665 * pow(121666, p - 2, p) % p
    x2 = (y * y - 1) * pow(d * y * y + 1, p - 2, p) % p; x = pow(x2, (p + 3) // 8, p)
    if (x * x - x2) % p: x = x * pow(2, (p - 1) // 4, p) % p
    return x if x & 1 == bit else p - x
_y = 4 * pow(5, P255 - 2, P255) % P255
ED25519 = Curve("edwards25519", F255, -1, -121665 * pow(121666, P255 - 2, P255), L255, (_x255(_y, 0), _y))
B448 = (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
        298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)
ED448 = Curve("edwards448", F448, 1, -39081, L448, B448)
def phi448(P):
    """the 4-isogeny from edwards448 (a=1, d=-39081) to its twist (a=-1, d=-39082)"""
    x, y = P; p = P448
    return (2 * x * y * pow(y * y - x * x, p - 2, p) % p, (y * y + x * x) * pow(2 - y * y - x * x, p - 2, p) % p)
def dual448(P):
    x, y = P; p = P448
    return (2 * x * y * pow(y * y + x * x, p - 2, p) % p, (y * y - x * x) * pow(2 - y * y + x * x, p - 2, p) % p)
ISO448 = Curve("isogenous twist of edwards448", F448, -1, -39082, L448, phi448(B448))
def curve_of(f): return ED25519 if f is F255 else ISO448

# ---------------------------------------------------------------- layouts
class Kind:
    """name, size, points: list of {coordinate: (offset, rep, lane)}"""
    def __init__(s, name, size, pts): s.name, s.size, s.pts = name, size, pts
def kinds(f):
    t = f.tag; F_, r1, r2, r4 = (R[t, n] for n in ("full", "red1", "red2", "red4")); s1, s2, s4 = r1.size, r2.size, r4.size
    k = {}
    fs = (F_.size + 31) // 32 * 32
    k["full1"] = Kind("full1", 4 * fs, [dict(X=(0, F_, 0), Y=(fs, F_, 0), Z=(2 * fs, F_, 0), T=(3 * fs, F_, 0))])
    k["2way"] = Kind("2way", 4 * s2, [dict(X=(0, r2, l), Y=(s2, r2, l), Z=(2 * s2, r2, l), T=(3 * s2, r2, l)) for l in range(2)])
    k["4way"] = Kind("4way", 4 * s4, [dict(X=(0, r4, l), Y=(s4, r4, l), Z=(2 * s4, r4, l), T=(3 * s4, r4, l)) for l in range(4)])
    k["xytz2"] = Kind("xytz2", 2 * s2, [dict(X=(0, r2, 0), Y=(0, r2, 1), T=(s2, r2, 0), Z=(s2, r2, 1))])
    k["xytz4"] = Kind("xytz4", s4, [dict(X=(0, r4, 0), Y=(0, r4, 1), T=(0, r4, 2), Z=(0, r4, 3))])
    k["precmp4"] = Kind("precmp4", 3 * s4, [dict(add=(0, r4, l), sub=(s4, r4, l), dt=(2 * s4, r4, l)) for l in range(4)])
    k["pre4"] = Kind("pre4", s4, [dict(sub=(0, r4, 0), add=(0, r4, 1), dt=(0, r4, 2), z2=(0, r4, 3))])
    return k
KINDS = {"255": kinds(F255), "448": kinds(F448)}
def coords(E, cv, names, x, y, z):
    """terms of the coordinates of a representation"""
    X, Y = x * z, y * z; T = X * y; o = {}
    for n in names:
        o[n] = {"X": lambda: X, "Y": lambda: Y, "Z": lambda: z, "T": lambda: T, "add": lambda: Y + X, "sub": lambda: Y - X,
                "dt": lambda: T * (2 * cv.d % cv.f.p), "z2": lambda: z * 2}[n]()
    return o

class PSpec:
    """args: (role, kind) or ("int", value-domain); op: add | dbl | iso"""
    def __init__(s, fname, f, op, args): s.fname, s.f, s.op, s.args = fname, f, op, args; s.name = fname
    @property
    def reads_T(s): return s.op != "dbl" or s.fname.startswith(("_1way_doubling_2w", "_1way_doubling_4w"))     # the caller owes T
    @property
    def ins(s): return [i for i, (r, k) in enumerate(s.args) if r in ("in", "inout", "clob")]
    @property
    def out(s): return next(i for i, (r, k) in enumerate(s.args) if r in ("out", "inout"))
SPECS = [
    PSpec("_1way_doubling_1w_full", F255, "dbl", [("inout", "full1")]),
    PSpec("_1way_fulladd_1w_full", F255, "add", [("out", "full1"), ("in", "full1"), ("in", "full1")]),
    PSpec("_4way_mixadd_25519", F255, "add", [("inout", "4way"), ("in", "precmp4")]),
    PSpec("_2way_fulladd", F255, "add", [("inout", "2way"), ("clob", "2way")]),
    PSpec("_2way_doubling", F255, "dbl", [("inout", "2way"), ("int", (0, 1))]),
    PSpec("_1way_doubling_2w_H0H5", F255, "dbl", [("inout", "xytz2")]),
    PSpec("_1way_fulladd_2w_H0H5", F255, "add", [("inout", "xytz2"), ("in", "xytz2")]),
    PSpec("_1way_doubling_4w_H0H5", F255, "dbl", [("inout", "xytz4")]),
    PSpec("_1way_mixadd_4w_H0H5", F255, "add", [("inout", "xytz4"), ("in", "pre4")]),
    PSpec("_4way_mixadd_ed448", F448, "add", [("inout", "4way"), ("in", "precmp4")]),
    PSpec("_1way_fulladd_2w_H0H8", F448, "add", [("inout", "xytz2"), ("in", "xytz2")]),
    PSpec("_1way_doubling_2w_H0H8", F448, "dbl", [("inout", "xytz2")]),
    PSpec("_1way_doubling_4w_H0H8", F448, "dbl", [("inout", "xytz4")]),
    PSpec("_1way_mixadd_4w_H0H8", F448, "add", [("inout", "xytz4"), ("in", "pre4")]),
    PSpec("isogeny_2w_H0H8", F448, "iso", [("inout", "xytz2")]),
]
BYNAME = {s.fname: s for s in SPECS}
def maxb(rep): return [(1 << 64) - 1] * rep.n if rep.name == "full" else list(fieldspecs.tight(rep))

# ---------------------------------------------------------------- polynomials of the verification
def expand(E, t):
    while True:
        ds = [i for m in t for i, _ in m if E.kind[i] == "prod"]
        if not ds: return t
        t = E.unfold(t, max(ds))
def curve_nf(E, cv, t, x, y):
    """normal form modulo the curve equation of the point (x,y): x^2*y^2 -> (a*x^2+y^2-1)/d"""
    p = cv.f.p; di = pow(cv.d, p - 2, p)
    while True:
        hit = False; out = {}
        for m, c in t.items():
            d = dict(m)
            if d.get(x, 0) >= 2 and d.get(y, 0) >= 2:
                hit = True
                d[x] -= 2; d[y] -= 2
                for ex, ey, k in ((2, 0, cv.a), (0, 2, 1), (0, 0, -1)):
                    e = dict(d); e[x] += ex; e[y] += ey
                    mm = tuple(sorted((i, n) for i, n in e.items() if n))
                    v = (out.get(mm, 0) + c * k * di) % p
                    if v: out[mm] = v
                    else: out.pop(mm, None)
            else:
                v = (out.get(m, 0) + c) % p
                if v: out[m] = v
                else: out.pop(m, None)
        t = out
        if not hit: return t
def var_of(v): return next(iter(v.t))[0][0]

def denominators(E, sp, P1, P2):
    one = V(E, E.const(1)); cv = curve_of(sp.f)
    x1, y1 = P1; x2, y2 = P2
    if sp.op == "iso": return y1 * y1 + x1 * x1, one * 2 - y1 * y1 + x1 * x1, (x1 * y1) * 2, y1 * y1 - x1 * x1
    k = x1 * y1 * (x2 * y2) * cv.d
    return one + k, one - k, x1 * y2 + x2 * y1, y1 * y2 + x1 * x2

def check_point(R_, E, sp, nm, out, P1, z1, P2, z2, T_given=True):
    """the obligations on the coordinates of one output point"""
    cv = curve_of(sp.f); t0 = time.time()
    def nf(v):
        t = expand(E, v.t)
        if sp.op in ("dbl", "iso"): t = curve_nf(E, cv, t, var_of(P1[0]), var_of(P1[1]))
        return t
    raw = lambda a, b: V(E, E.raw_mul(expand(E, a.t), expand(E, b.t)))
    out = {k: V(E, nf(v)) for k, v in out.items()}
    dx, dy, nx, ny = denominators(E, sp, P1, P2)
    for c, den, num in (("X", dx, nx), ("Y", dy, ny)):
        r = nf(raw(out[c], den) - raw(out["Z"], num))
        if r: R_.bad("law:%s.%s" % (nm, c), "the %s coordinate is not that of the %s: %s" % (c, {"add": "sum", "dbl": "double", "iso": "image"}[sp.op], E.show(r, 4)))
        else: R_.ok("law:%s.%s" % (nm, c), "polynomial identity over GF(p)", time.time() - t0)
    if T_given:
        r = nf(raw(out["T"], out["Z"]) - raw(out["X"], out["Y"]))
        if r: R_.bad("law:%s.T" % nm, "T*Z = X*Y does not hold: %s" % E.show(r, 4))
        else: R_.ok("law:%s.T" % nm, "polynomial identity over GF(p)")
    # Z3 is a nonzero constant times powers of nonzero quantities
    G = out["Z"].t; zs = sorted(set(var_of(z) for z in (z1, z2) if z is not None)); ex = []
    for z in zs:
        es = set(dict(m).get(z, 0) for m in G)
        if len(es) != 1: R_.bad("nonzero:%s.Z" % nm, "Z is not homogeneous in the denominators of the operands"); return
        ex.append(es.pop())
    if not G: R_.bad("nonzero:%s.Z" % nm, "Z is zero"); return
    base = {tuple(sorted((z, e) for z, e in zip(zs, ex) if e)): 1}
    pa = [base]
    for a in range(4):
        q = pa[-1]; pb = [q]
        for b in range(4):
            cand = nf(V(E, pb[-1]))
            m0 = next(iter(cand))
            if m0 in G:
                c = G[m0] * pow(cand[m0], -1, cv.f.p) % cv.f.p
                if not nf(V(E, E.sub(G, E.scale(cand, c)))):
                    R_.ok("nonzero:%s.Z" % nm, "polynomial identity over GF(p)"); return
            pb.append(E.raw_mul(pb[-1], expand(E, dy.t)))
        pa.append(E.raw_mul(pa[-1], expand(E, dx.t)))
    R_.bad("nonzero:%s.Z" % nm, "Z is not shown to be nonzero: %s" % E.show(G, 4))

def verify(sp, al=None, pre=None, ints=None):
    """the contract of a point function for the aliasing pattern al, operand digits within pre[arg][coordinate] and
    the integer arguments ints"""
    t0 = time.time(); f = sp.f; mod = module(); mc = fm.FM(mod, [f]); mc.tight_int = True; E = mc.fe[f.tag]; cv = curve_of(f)
    n = len(sp.args); al = al or list(range(n)); ints = ints or {}
    R_ = Result(sp.fname + ("" if al == list(range(n)) else "[alias %s]" % al) + ("[%s]" % ints if ints else ""))
    R_.need = mc.need
    objs = {}; P = {}; argv = []; K = KINDS[f.tag]
    for i, (role, k) in enumerate(sp.args):
        if role == "int": argv.append(ints[i]); continue
        r = al[i]
        if r not in objs:
            kd = K[k]; o = objs[r] = mc.new("arg%d" % i, kd.size, "arg")
        o = objs[r]
        if role != "out" and r not in P:
            P[r] = []
            for l, pt in enumerate(K[k].pts):
                nm = "%d.%d" % (i, l); x, y = mc.fvar(f, "x" + nm), mc.fvar(f, "y" + nm)
                z = mc.fvar(f, "z" + nm) if ("Z" in pt or "z2" in pt) else V(E, E.const(1))
                for c, t in coords(E, cv, pt, x, y, z).items():
                    off, rep, lane = pt[c]
                    b = pre[i][c] if pre else maxb(rep)
                    if c == "T" and not sp.reads_T: t = mc.fvar(f, "t" + nm)      # callers of doublings owe no T
                    mc.write(f, rep, Ptr(o, off), lane, t.t, b)
                P[r].append(((x, y), z if ("Z" in pt or "z2" in pt) else None))
        argv.append(Ptr(o))
    snap = {i: dict(objs[al[i]].cells) for i in sp.ins}
    try: mc.call(sp.fname, argv)
    finally: R_.insts = mc.results()
    o = sp.out; kd = K[sp.args[o][1]]; ins = [al[i] for i in sp.ins]
    a, b = (ins[0], ins[-1])
    T_given = sp.op != "iso" and not any(v == 0 for v in ints.values())
    R_.outb = {}
    for l, pt in enumerate(kd.pts):
        out = {}
        for c, (off, rep, lane) in pt.items():
            try: ds, t = mc.read(f, rep, Ptr(objs[al[o]], off), lane)
            except Violation:
                if c == "T" and not T_given: continue
                raise
            out[c] = V(E, t)
            R_.outb[c] = [max(u, v.hi) for u, v in zip(R_.outb.get(c, [0] * rep.n), ds)]
            mb = maxb(rep)
            if c == "T" and not T_given: continue
            for i, d in enumerate(ds):
                if d.hi <= mb[i]: R_.ok("bound:lane%d.%s[%d]" % (l, c, i), "interval arithmetic")
                else: R_.bad("bound:lane%d.%s[%d]" % (l, c, i), "digit may reach %#x" % d.hi)
        P1, z1 = P[a][l]; P2, z2 = P[b][l]
        check_point(R_, E, sp, "lane%d" % l, out, P1, z1, P2 if len(ins) > 1 else P1, z2 if len(ins) > 1 else None, T_given)
    for i in sp.ins:
        if al[i] == al[o]: continue
        same = objs[al[i]].cells == snap[i]
        if same: R_.ok("frame:arg%d unchanged" % i, "store log")
        elif sp.args[i][0] == "in": R_.bad("frame:arg%d" % i, "the operand is modified")
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    if mc.asm_checks: R_.ok("asm-constraints:%d blocks" % mc.asm_checks, "declared outputs and clobbers", 0.0)
    R_.wall = time.time() - t0
    return R_
