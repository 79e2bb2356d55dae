"""Native trials of the point functions: the static functions of the project, compiled with its flags in one
translation unit with exported wrappers, against the affine addition law in Python integers."""
import os, subprocess, ctypes, random, time
from . import core, ir, replay as rp
from .fld import *
from .points import *

_libs = {}
def unit_library(key, wrappers):
    """shared object of target.c plus exported wrappers around static functions"""
    if key in _libs: return _libs[key]
    d = core.scratch(); c = os.path.join(d, key + ".c"); so = os.path.join(d, key + ".so")
    open(c, "w").write('#include "target.c"\n' + wrappers)
    tp = os.path.join(ir.REPO, "third_party")
    src = [os.path.join(tp, f) for f in sorted(os.listdir(tp)) if f.endswith(".c")]
    r = subprocess.run(["gcc", "-shared"] + core.PROJ_CFLAGS + core.INC + ["-o", so, c] + src, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("gcc failed\n" + r.stderr[-2000:])
    _libs[key] = so
    return so

def sqrt_mod(a, p):
    a %= p
    if p % 4 == 3: r = pow(a, (p + 1) // 4, p)
    else:
        r = pow(a, (p + 3) // 8, p)
        if r * r % p != a: r = r * pow(2, (p - 1) // 4, p) % p
    return r if r * r % p == a else None
def spread(rng, f, rep, v, bounds):
    """digits of a representative of v within the bounds"""
    if rep.name == "full":
        if rng.random() < 0.4 and v + f.p < 1 << 64 * rep.n: v += f.p
        return [v >> 64 * i & (1 << 64) - 1 for i in range(rep.n)]
    bits = [b - a for a, b in zip(rep.weights, rep.weights[1:] + [rep.top()])]
    ds = [v >> w & (1 << b) - 1 for w, b in zip(rep.weights, bits)]
    for i in range(rep.n - 1):
        if rng.random() < 0.3 and ds[i + 1] > 0 and ds[i] + (1 << bits[i]) <= bounds[i]: ds[i + 1] -= 1; ds[i] += 1 << bits[i]
    return ds
def extreme(rng, rep, bounds):
    m = rng.randrange(3)
    ds = []
    for i in range(rep.n):
        b = bounds[i]
        ds.append(b if m == 0 else rng.randrange(min(b + 1, 1 << 12)) if m == 1 else rng.choice([b, b - 1, 0, b - rng.randrange(1, 64), rng.randrange(b + 1)]))
    if rng.random() < 0.5:
        for i in range(rep.n):
            if rng.random() < 0.3: ds[i] = rng.randrange(bounds[i] + 1)
    return ds
def dval(rep, ds): return sum(d << w for d, w in zip(ds, rep.weights))

LOW = {"255": [(0, 1), (0, P255 - 1), (sqrt_mod(-1, P255), 0), (P255 - sqrt_mod(-1, P255), 0)], "448": [(0, 1), (0, P448 - 1)]}
def affine(rng, cv, pool):
    m = rng.randrange(8)
    if m == 0: return rng.choice(LOW[cv.f.tag])
    if m == 1: return cv.mul(rng.randrange(1, 9), cv.B)
    if not pool or len(pool) < 24: pool.append(cv.mul(rng.randrange(cv.l), cv.B))
    P = rng.choice(pool)
    if m == 2: P = cv.add(P, rng.choice(LOW[cv.f.tag]))
    return P if rng.random() < 0.7 else cv.neg(P)
def gen(rng, cv, pt, pool, related=None):
    """(affine point, digits per coordinate) of one point in a layout"""
    p = cv.f.p
    if "X" in pt and "Z" in pt and rng.random() < 0.35:
        for _ in range(8):      # x or y and the denominator from extreme digits
            a, b = rng.choice(["X", "Y"]), "Z"; dd = {}
            if rng.random() < 0.5: dd = {c: [v - rng.randrange(1 << 12) for v in (maxb(pt[c][1]) if pt[c][1].name == "full" else [(1 << w) - 1 for w in pt[c][1].bits])] for c in (a, b)}
            else: dd = {c: extreme(rng, pt[c][1], maxb(pt[c][1])) for c in (a, b)}
            z = dval(pt[b][1], dd[b]) % p
            if not z: continue
            u = dval(pt[a][1], dd[a]) % p * pow(z, p - 2, p) % p
            # a*x^2 + y^2 = 1 + d*x^2*y^2
            w = sqrt_mod((1 - cv.a * u * u) * pow(1 - cv.d * u * u, p - 2, p), p) if a == "X" else sqrt_mod((1 - u * u) * pow(cv.a - cv.d * u * u, p - 2, p), p)
            if w is None: continue
            P = (u, w) if a == "X" else (w, u); v = dict(X=P[0] * z, Y=P[1] * z, T=P[0] * P[1] % p * z)
            for k in pt:
                if k not in dd: dd[k] = spread(rng, cv.f, pt[k][1], v[k] % p, maxb(pt[k][1]))
            return P, dd
    if rng.random() < 0.5 and ("Z" in pt or "z2" in pt):
        for _ in range(8):
            if "X" in pt:
                (o1, r1, l1), (o2, r2, l2) = pt["X"], pt["Y"]
                dx, dy = extreme(rng, r1, maxb(r1)), extreme(rng, r2, maxb(r2)); X, Y = dval(r1, dx) % p, dval(r2, dy) % p; dd = dict(X=dx, Y=dy)
            else:
                (o1, r1, l1), (o2, r2, l2) = pt["sub"], pt["add"]
                ds, da = extreme(rng, r1, maxb(r1)), extreme(rng, r2, maxb(r2)); s, a = dval(r1, ds), dval(r2, da)
                h = pow(2, p - 2, p); X, Y = (a - s) * h % p, (a + s) * h % p; dd = dict(sub=ds, add=da)
            # Z^4 - (a*X^2+Y^2)*Z^2 + d*X^2*Y^2 = 0
            b = (cv.a * X * X + Y * Y) % p; c = cv.d * X * X % p * Y % p * Y % p
            q = sqrt_mod(b * b - 4 * c, p)
            if q is None: continue
            for sg in (q, -q):
                z2 = (b + sg) * pow(2, p - 2, p) % p; z = sqrt_mod(z2, p)
                if z: break
            else: continue
            iz = pow(z, p - 2, p); P = (X * iz % p, Y * iz % p)
            if not cv.on(P): continue
            z_ = z if rng.random() < .5 else p - z
            if z_ != z: P = (-P[0] % p, -P[1] % p)
            z = z_; T = X * Y % p * pow(z, p - 2, p) % p
            for k, v in (("Z", z), ("T", T), ("dt", 2 * cv.d * T), ("z2", 2 * z)):
                if k in pt: dd[k] = spread(rng, cv.f, pt[k][1], v % p, maxb(pt[k][1]))
            return P, dd
    P = affine(rng, cv, pool)
    if related is not None:
        m = rng.randrange(8)
        if m == 0: P = related
        elif m == 1: P = cv.neg(related)
        elif m == 2: P = cv.add(related, rng.choice(LOW[cv.f.tag]))
    x, y = P; z = rng.choice([1, 2, p - 1, rng.randrange(1, p), rng.randrange(1, p)]) if ("Z" in pt or "z2" in pt) else 1
    T = x * y % p * z % p; v = dict(X=x * z, Y=y * z, Z=z, T=T, add=(y + x) * z, sub=(y - x) * z, dt=2 * cv.d * T, z2=2 * z)
    return P, {k: spread(rng, cv.f, pt[k][1], v[k] % p, maxb(pt[k][1])) for k in pt}

def wrappers(specs):
    s = ""
    for x in specs:
        a = ", ".join("int a%d" % i if r == "int" else "void *a%d" % i for i, (r, k) in enumerate(x.args))
        s += '__attribute__((visibility("default"))) void vfw_%s(%s) { %s(%s); }\n' % (x.fname, a, x.fname, ", ".join("a%d" % i for i in range(len(x.args))))
    return s
def replay(specs, seconds=60, n=4000):
    live = [s for s in specs if s.fname in core.module().funcs]
    if not live: return None
    so = unit_library("points" + specs[0].f.tag, wrappers(live))
    def run(report):
        lib = ctypes.CDLL(so); t0 = time.time(); rng = random.Random(11); pool = {"255": [], "448": []}
        while time.time() - t0 < seconds:
            for sp in live:
                cv = curve_of(sp.f); K = KINDS[sp.f.tag]; p = sp.f.p
                bufs = []; pts = {}; argv = []; ints = {}; inp = {}
                for i, (role, k) in enumerate(sp.args):
                    if role == "int": ints[i] = rng.choice(k); argv.append(ctypes.c_int(ints[i])); continue
                    b = rp.Buf(K[k].size); bufs.append(b); argv.append(b.p)
                    raw = bytearray(b"\x5a" * K[k].size)
                    if role != "out":
                        pts[i] = []
                        for l, pt in enumerate(K[k].pts):
                            first = next(iter(pts.values())); P, dd = gen(rng, cv, pt, pool[sp.f.tag], first[l] if first is not pts[i] else None); pts[i].append(P)
                            for c, (off, rep, lane) in pt.items():
                                for q, d in enumerate(dd[c]): o = off + rep.off(lane, q); raw[o:o + 8] = d.to_bytes(8, "little")
                    b.set(raw); inp["arg%d" % i] = bytes(raw).hex() if role != "out" else None
                rec = dict(function=sp.fname, arguments=inp, ints=ints); report(rec)
                before = {i: x.get() for i, x in enumerate(bufs)}
                getattr(lib, "vfw_" + sp.fname)(*argv)
                o = sp.out; ins = sp.ins; raw = bufs[o].get(); why = None
                for l, pt in enumerate(K[sp.args[o][1]].pts):
                    v = {c: dval(rep, [int.from_bytes(raw[off + rep.off(lane, q):][:8], "little") for q in range(rep.n)]) % p for c, (off, rep, lane) in pt.items()}
                    A = pts[ins[0]][l]; B = pts[ins[-1]][l]
                    if sp.op == "iso": x, y = A; E = (2 * x * y * pow(y * y + x * x, p - 2, p) % p, (y * y - x * x) * pow(2 - y * y + x * x, p - 2, p) % p)
                    else: E = cv.add(A, B)
                    if v["Z"] == 0: why = "lane %d: Z = 0" % l
                    elif (v["X"] - E[0] * v["Z"]) % p or (v["Y"] - E[1] * v["Z"]) % p: why = "lane %d: the point is not the %s of the operands" % (l, {"add": "sum", "dbl": "double", "iso": "image"}[sp.op])
                    elif sp.op != "iso" and not any(x == 0 for x in ints.values()) and (v["T"] * v["Z"] - v["X"] * v["Y"]) % p: why = "lane %d: T*Z differs from X*Y" % l
                for i, b in enumerate(bufs):
                    if not b.guards(): why = "bytes outside argument %d are written" % i
                    if sp.args[i][0] == "in" and b.get() != before[i]: why = "argument %d is modified" % i
                if why: return dict(result=why, **rec)
        return None
    return rp.in_child(run, timeout=seconds + 60)
