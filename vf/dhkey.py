"""Diffie-Hellman key generation (C09): data flow over contracts, the map from the Edwards curve to the Montgomery coordinate, and the lemmas that tie it to the ladder.

The keygen functions are executed over the contracts of fixed-base multiplication (C11, C12), doubling and the map; points are
integer multiples of the base point; the result must be mont([clamped secret]B).  The map is executed over the field contracts.
The ladder side is C07/C08 (re-verified here): the closed and polynomial facts below connect the two."""
import time, random
from .core import *
from .fld import *
from .fe import FE, V
from . import fm, flow, ladder, points
from .points import *
from .flow import Flow, PTok, pkey

SLOTS = [("X25519.keygen", F255), ("X25519_x64.keygen", F255), ("X448.keygen", F448)]
MAP = {"255": "point_Edwards2Montgomery_ed25519", "448": "point_Edwards2Montgomery_ed448"}
DBL = {"255": "_1way_doubling_2w_H0H5", "448": "_1way_doubling_2w_H0H8"}
FIX = {"255": "point_multiplication_ed25519", "448": "fixed_point_multiplication_ed448"}

class KFlow(Flow):
    def __init__(s, mod, f):
        super().__init__(mod, f); s.memoU = {}; C = s.contracts
        C[MAP[f]] = lambda m, a: m.h_mont(a)
        C[DBL[f]] = lambda m, a: m.h_dbl(a)
    def h_dbl(s, a):
        v = s.point(a[0], "xytz2"); s.check(a[0], KINDS[s.f]["xytz2"].size, "write"); s.rely((DBL[s.f],), dbl_contract, s.f)
        s.wipe(a[0], KINDS[s.f]["xytz2"].size); a[0].obj.cells[a[0].off] = (PTok("xytz2", {g: pscale(p, 2) for g, p in v.items()}), 8); return 0
    def h_mont(s, a):
        out, P = a; n = 32 if s.f == "255" else 56; s.check(out, n, "write"); v = s.point(P, "xytz2"); s.rely((MAP[s.f],), verify_map, F255 if s.f == "255" else F448)
        s.wipe(P, KINDS[s.f]["xytz2"].size)
        for i, w in enumerate(s.mont(v)): s.store_int(Ptr(out.obj, out.off + i), 1, w)
        return 0
    def mont(s, val):
        val = s.lin(val); k = tuple(sorted(((str(g), pkey(p)) for g, p in val.items()), key=lambda x: x[0])); n = 32 if s.f == "255" else 56
        if k not in s.memoU: s.memoU[k] = [s.c.fresh("U%d[%d]" % (len(s.memoU), i), 8) for i in range(n)]
        return s.memoU[k]

def verify_keygen(slot, f, fn, alias):
    t0 = time.time(); R_ = Result("%s %s%s" % (slot, fn, " [in place]" if alias else "")); R_.relied = set(); n = f.nbytes
    pend = [[]]; k = 0
    while pend:
        m = KFlow(module(), f.tag); m.decisions = pend.pop(); m.pending = []; k += 1
        if k > 16: raise Unsupported("too many paths")
        sec = m.new("secret", n, "arg"); out = sec if alias else m.new("public", n, "arg"); v = {}
        for i in range(n):
            p = {}
            for b in range(8):
                a = m.c.atom("k%d.%d" % (i, b), 0, 1); p[(a.id,)] = 1 << b
                if f is F255 and (i == 0 and b < 3 or i == 31 and b >= 6) or f is F448 and (i == 0 and b < 2 or i == 55 and b == 7): continue
                v[(a.id,)] = 1 << 8 * i + b
            sec.cells[i] = (W(8, p, 0, 255), 1)
        v[()] = 1 << (254 if f is F255 else 447); snap = dict(sec.cells)
        try: r = flow.rc_of(m, m.call(fn, [Ptr(out), Ptr(sec)]))
        finally: R_.relied |= m.relied
        pend += m.pending
        e = flow.same_bytes(m, out, 0, m.mont({"B": v}))
        if e: R_.bad("post:public key", e)
        else: R_.ok("post:public key = mont([clamped secret]B)", "term identity", time.time() - t0)
        if r == 0: R_.ok("post:return code", "concrete")
        else: R_.bad("post:return code", "%r" % (r,))
        if not alias:
            if sec.cells == snap: R_.ok("frame:secret unchanged", "store log")
            else: R_.bad("frame:secret", "the secret is modified")
        R_.ok("memory-safety:%d accesses" % m.access_checks, "bounds of every access", 0.0)
    R_.wall = time.time() - t0
    return R_

def dbl_contract(tag):
    f = F255 if tag == "255" else F448
    for s in points.SPECS:
        if s.fname == DBL[tag] and s.f is f: return points.verify(s)
    raise Unsupported("no contract of " + DBL[tag])

def verify_map(f):
    """the map on any representation: ed25519  u = (1+y)/(1-y),  ed448  u = (y/x)^2, canonically encoded (the inverse of zero is zero)"""
    t0 = time.time(); fn = MAP[f.tag]; mc = fm.FM(module(), [f]); E = mc.fe[f.tag]; kd = KINDS[f.tag]["xytz2"]; c = mc.c; R_ = Result(fn); R_.need = mc.need
    P = mc.new("P", kd.size, "arg"); out = mc.new("enc", f.nbytes, "arg"); x, z = mc.fvar(f, "x"), mc.fvar(f, "z"); E.units.add(var_of(z))
    y = mc.fvar(f, "y"); co = coords(E, None, "XYZ", x, y, z); co["T"] = mc.fvar(f, "t")               # nothing is known about T
    if f is F255: w = mc.fvar(f, "w"); co["Y"] = z - w * z                       # w = 1-y
    for k, t in co.items():
        off, rep, lane = kd.pts[0][k]; mc.write(f, rep, Ptr(P, off), lane, t.t, maxb(rep))
    try: mc.call(fn, [Ptr(out), Ptr(P)])
    finally: R_.insts = mc.results()
    want = (2 - w) * w.inv() if f is F255 else (y * x.inv()) * (y * x.inv())
    ws = mc.ser_words(f, want.t)
    for i in range(f.nbytes // 8):
        g = mc.load_int(Ptr(out, 8 * i), 8)
        if isinstance(g, Undef): R_.bad("encoding:word%d" % i, "not written"); continue
        d = psub(c.norm(c.tow(g, 64)).p, ws[i].p)
        if not d: R_.ok("encoding:word%d" % i, "field term identity", time.time() - t0)
        else: R_.bad("encoding:word%d" % i, "the string is not the canonical encoding of the Montgomery coordinate: difference %s" % c.show(d))
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.wall = time.time() - t0
    return R_

def lemmas(f):
    """the ladder of RFC 7748 computes multiples on the Montgomery curve v^2 = u^3 + A*u^2 + u; the map is onto that curve"""
    R_ = Result("lemmas on curve%s" % ("25519" if f is F255 else "448")); t0 = time.time(); p = f.p; A = 486662 if f is F255 else 156326
    def ok(n, b):
        if b: R_.ok("lemma:" + n, "polynomial identity", time.time() - t0)
        else: R_.bad("lemma:" + n, "does not hold")
    import sympy
    x1, y1, x2, y2, a, X, Z, U, W_, xd = sympy.symbols("x1 y1 x2 y2 a X Z U W xd")
    red = lambda e: sympy.expand(e).subs({y1**4: (x1**3 + a * x1**2 + x1)**2, y2**4: (x2**3 + a * x2**2 + x2)**2}) 
    def mod(e):
        e = sympy.Poly(sympy.expand(e), y1, y2); o = 0
        for (i, j), k in e.terms(): o += k * (x1**3 + a * x1**2 + x1)**(i // 2) * y1**(i % 2) * (x2**3 + a * x2**2 + x2)**(j // 2) * y2**(j % 2)
        return sympy.expand(o)
    d = x1 - x2; s = a + x1 + x2
    plus = (y1 - y2)**2 - s * d**2; minus = (y1 + y2)**2 - s * d**2          # u(P+Q)*d^2, u(P-Q)*d^2 by the chord rule
    ok("differential addition: u(P+Q)*u(P-Q)*(u1-u2)^2 = (u1*u2-1)^2", mod(plus * minus - (x1 * x2 - 1)**2 * d**2) == 0)
    num = (3 * x1**2 + 2 * a * x1 + 1)**2 - (a + 2 * x1) * 4 * y1**2         # u(2P)*4*v^2 by the tangent rule
    ok("doubling: 4*u*(u^2+A*u+1)*u(2P) = (u^2-1)^2", mod(num * 1 - (x1**2 - 1)**2) == 0)
    a24 = (a - 2) / sympy.Integer(4)
    n2, d2, n3, d3 = ladder.step(xd, X, Z, U, W_, a24)
    u, w = X / Z, U / W_
    ok("a ladder step doubles the first point", sympy.simplify(n2 / d2 - (u**2 - 1)**2 / (4 * u * (u**2 + a * u + 1))) == 0)
    ok("a ladder step adds both points, given the difference", sympy.simplify(n3 / d3 - (u * w - 1)**2 / (xd * (u - w)**2)) == 0)
    ok("a24 = (A-2)/4", (A - 2) % 4 == 0 and (A - 2) // 4 == ladder.a24_of(f))
    inv = lambda x: pow(x, p - 2, p); cv = points.ED25519 if f is F255 else points.ED448; bx, by = cv.B
    ok("the base point maps to u = %d" % (9 if f is F255 else 5), ((1 + by) * inv(1 - by) % p == 9) if f is F255 else (by * inv(bx)) ** 2 % p == 5)
    Xs, Ys, dd = sympy.symbols("x y d")
    if f is F255:
        # (x,y) on -x^2+y^2 = 1+d*x^2*y^2:  u = (1+y)/(1-y), v = c*u/x with c^2 = -(A+2)
        k = pow(-(A + 2) % p, (p + 3) // 8, p); k = k if k * k % p == -(A + 2) % p else k * pow(2, (p - 1) // 4, p) % p
        ok("-(A+2) is a square and d = (2-A)/(A+2)", k * k % p == -(A + 2) % p and (cv.d * (A + 2) - (A - 2) * -1) % p == 0)
        D = (2 - a) / (a + 2); xx = (Ys**2 - 1) / (1 + D * Ys**2); uu = (1 + Ys) / (1 - Ys)      # x^2 from the curve equation (a = -1)
        ok("the image is on the Montgomery curve", sympy.simplify(-(a + 2) * uu**2 / xx - (uu**3 + a * uu**2 + uu)) == 0)
    else:
        # (x,y) on x^2+y^2 = 1+d*x^2*y^2:  u = (y/x)^2, v = y*(2-x^2-y^2)/x^3, on v^2 = u^3+A*u^2+u with A = 2-4d
        ok("A = 2-4d", (A - 2 + 4 * cv.d) % p == 0)
        s2 = sympy.symbols("s2"); D = dd; yy = (1 - s2) / (1 - D * s2)
        ok("the image is on the Montgomery curve", sympy.simplify(yy * (2 - s2 - yy)**2 / s2**3 - ((yy / s2)**3 + (2 - 4 * D) * (yy / s2)**2 + yy / s2)) == 0)
    # no clamped scalar but 4l (edwards448) is a multiple of the order
    top = 254 if f is F255 else 447; h = 8 if f is F255 else 4; lo = -(-(1 << top) // (h * cv.l)); hi = ((1 << top + 1) - 1) // (h * cv.l)
    ok("the clamped multiples of the order are %s" % ("none" if hi < lo else "4l, where both sides are zero"), hi < lo if f is F255 else (lo, hi) == (1, 1))
    R_.wall = time.time() - t0
    return R_

def replay(items, seconds=50):
    """items: (name, f, offset of keygen, offset of shared)"""
    import ctypes
    from . import replay as rp
    so = rp.library()
    def run(report):
        lib = ctypes.CDLL(so); t0 = time.time(); rng = random.Random(9); F = ctypes.CFUNCTYPE(ctypes.c_int, *[ctypes.c_void_p] * 2); G = ctypes.CFUNCTYPE(ctypes.c_int, *[ctypes.c_void_p] * 3)
        L4 = 4 * points.L448
        while time.time() - t0 < seconds:
            for nm, f, ok, os_ in items:
                n = f.nbytes; base = ctypes.addressof(ctypes.c_uint8.in_dll(lib, nm)); kp, sp = (ctypes.c_void_p.from_address(base + o).value for o in (ok, os_))
                if not kp or not sp: return dict(reason="an interface slot of %s is empty" % nm)
                k = ladder.edge(rng, f)
                if f is F448 and rng.random() < 0.1: k = L4 + rng.choice([0, 1, 2, 3, -1, 4, 8, -4])
                k = k.to_bytes(n, "little"); u = (9 if f is F255 else 5).to_bytes(n, "little"); o, b, q, g = rp.Buf(n), rp.Buf(n), rp.Buf(n), rp.Buf(n); b.set(k); q.set(u)
                inp = dict(object=nm, secret=k.hex()); report(inp); F(kp)(o.p, b.p); G(sp)(g.p, q.p, b.p); exp = ladder.rfc7748(f, k, u); why = None
                if o.get() != exp: why = "keygen returns %s, RFC 7748 gives %s" % (o.get().hex(), exp.hex())
                elif g.get() != exp: why = "shared on the base point returns %s, keygen %s" % (g.get().hex(), o.get().hex())
                elif b.get() != k: why = "modifies the secret"
                elif not (o.guards() and b.guards()): why = "writes outside the output"
                if why: return dict(result=why, **inp)
        return None
    return rp.in_child(run, timeout=seconds + 30)
