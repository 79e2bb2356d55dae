"""Fields and element representations (the abstraction functions of the data-structure invariants)."""
from .poly import *
from .exe import Ptr

class Field:
    def __init__(s, name, p, nbytes, tag, vt):
        s.name, s.p, s.nbytes, s.tag, s.vt = name, p, nbytes, tag, vt
    def __reduce__(s): return (_field, (s.tag,))      # one object per field in every process
def _field(tag): return F255 if tag == "255" else F448
F255 = Field("GF(2^255-19)", 2**255 - 19, 32, "255", "Fp25519")
F448 = Field("GF(2^448-2^224-1)", 2**448 - 2**224 - 1, 56, "448", "Fp448")

class Rep:
    """size in bytes, number of lanes, off(lane,digit), weights (exponents of two), digit bits"""
    def __init__(s, field, name, size, lanes, off, weights):
        s.f, s.name, s.size, s.lanes, s.off, s.weights = field, name, size, lanes, off, weights
        s.n = len(weights)
        s.bits = [b - a for a, b in zip(weights, weights[1:] + [s.top()])]
    def top(s): return {"255": 255, "448": 448}[s.f.tag] if s.n not in (4, 7, 8, 14) else 64 * s.n
W255 = [-(-51 * i // 2) for i in range(10)]
W448 = [28 * i for i in range(16)]
R = {}
def mk(field, name, size, lanes, off, weights):
    r = Rep(field, name, size, lanes, off, weights); R[field.tag, name] = r
    return r
for f, n in ((F255, 4), (F448, 7)):
    mk(f, "full", 8 * n, 1, lambda l, i: 8 * i, [64 * i for i in range(n)])
    mk(f, "buf", 16 * n, 1, lambda l, i: 8 * i, [64 * i for i in range(2 * n)])
    mk(f, "full2", 16 * n, 2, lambda l, i, n=n: 8 * n * l + 8 * i, [64 * i for i in range(n)])
    mk(f, "buf2", 32 * n, 2, lambda l, i, n=n: 16 * n * l + 8 * i, [64 * i for i in range(2 * n)])
for f, h, w in ((F255, 5, W255), (F448, 8, W448)):
    mk(f, "red1", 96 if h == 5 else 128, 1, lambda l, i, h=h: 16 * i if i < h else 16 * (i - h) + 8, w)
    mk(f, "red2", 32 * h, 2, lambda l, i, h=h: (32 * i if i < h else 32 * (i - h) + 8) + 16 * l, w)
    mk(f, "red4", 64 * h, 4, lambda l, i, h=h: (64 * i if i < h else 64 * (i - h) + 32) + 8 * l, w)

def put(mc, rep, obj, name, bounds=None, base=0, lo=None):
    """fill an object with a fresh symbolic element; returns the lane values as polynomials"""
    c = mc.c; vals = []
    for l in range(rep.lanes):
        v = {}
        for i in range(rep.n):
            hi = (1 << 64) - 1 if bounds is None else bounds[l][i] if isinstance(bounds[0], list) else bounds[i]
            if hi == 0:
                obj.cells[base + rep.off(l, i)] = (W(64, {}, 0, 0), 8); continue
            x = c.fresh("%s%s[%d]" % (name, "" if rep.lanes == 1 else ".%d" % l, i), 64, 0, hi)
            obj.cells[base + rep.off(l, i)] = (x, 8)
            v = padd(v, pscale(x.p, 1 << rep.weights[i]))
        vals.append(v)
    return vals
def digits(mc, rep, obj, lane, base=0):
    return [mc.load_int(Ptr(obj, base + rep.off(lane, i)), 8) for i in range(rep.n)]
def value(mc, rep, ds):
    v = {}
    for i, d in enumerate(ds):
        d = mc.c.norm(mc.c.tow(d, 64))
        v = padd(v, pscale(d.p, 1 << rep.weights[i]))
    return v
