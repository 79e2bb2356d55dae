"""Contracts of the public field interface (C01-C04)."""
from .fnspec import *

def scale(bits, f): return [int(f * 2**b) for b in bits]
def add(a, b): return [x + y for x, y in zip(a, b)]
def lanes(f): return lambda *xs: [[f(*t) for t in zip(*xs)]]

def full(fld):
    t = fld.tag; vt = fld.vt + "._1w_full."
    F, B, F2, B2 = R[t, "full"], R[t, "buf"], R[t, "full2"], R[t, "buf2"]
    a24 = 121666 if t == "255" else 39082
    S = []
    def s(slot, args, post, **k): S.append(FnSpec(vt + slot, fld, args, post, **k))
    o = ("out", F); i = ("in", F)
    s("arith.add", [o, i, i], lanes(lambda a, b: a + b))
    s("arith.sub", [o, i, i], lanes(lambda a, b: a - b))
    s("arith.mul", [o, i, i], lanes(lambda a, b: a * b), cut=1)
    s("arith.sqr", [("io", F)], lanes(lambda a: a * a), cut=1)
    if t == "255" or True: s("arith.neg", [("io", F)], lanes(lambda a: 0 - a))
    s("arith.cmv", [("bit", None), o, i, i], lambda b, x, y: [[x[0] + b[0] * (y[0] - x[0])]], exact=True)
    s("arith.misc.copy", [o, i], lanes(lambda a: a), exact=True)
    s("arith.misc.zero", [o], lambda: [[0]], exact=True)
    s("arithex.intmul", [("out", B), i, i], lanes(lambda a, b: a * b), exact=True)
    s("arithex.intsqr", [("out", B), i], lanes(lambda a: a * a), exact=True)
    s("arithex.intmul2", [("out", B2), ("in", F2), ("in", F2)], lanes(lambda a, b: a * b), exact=True)
    s("arithex.intsqr2", [("out", B2), ("in", F2)], lanes(lambda a: a * a), exact=True)
    s("arithex.mula24", [o, i], lanes(lambda a: a24 * a))
    s("arithex.reduce", [o, ("in", B)], lanes(lambda a: a))
    s("arithex.reduce2", [("out", F2), ("in", B2)], lanes(lambda a: a))
    return S


# ---- packed representations.  Digit bounds: T(ight) is what mul, sqr and compress return; the multiplication
# contracts hold for operands up to the factors in PAIRS (in units of 2^digit-width)
def unit(rep, f): return [int(f * 2**b) for b in digit_bits(rep)]
def digit_bits(rep): return [26, 25] * 5 if rep.f.tag == "255" else [28] * 16
def tight(rep): return [2**b + (2**17 if rep.f.tag == "255" else 512) for b in digit_bits(rep)]
PAIRS = {"255": [(3.1, 3.1)], "448": [(2.1, 3.1), (3.1, 2.1), (2.5, 2.5)]}
SQR = {"255": 3.1, "448": 2.5}

LOOSE1 = [2**29 + 512] * 8 + [3 * 2**28 + 1024] + [2**29 + 512] * 7   # what one-way squaring over GF(2^448-..) returns

def packed(fld, w):
    t = fld.tag; vt = fld.vt + "._%dw_red." % w
    E = R[t, "red%d" % w]
    S = []
    def s(slot, args, post, **k): S.append(FnSpec(vt + slot, fld, args, post, **k))
    o = ("out", E); i = ("in", E); io = ("io", E)
    big = [2**62] * E.n; T = tight(E)
    sb = unit(E, 2.0) ; sb = [x - 64 for x in sb]       # subtrahends stay below the 2p bias
    s("arith.add", [o, i, i], lanes(lambda a, b: a + b), pre={1: big, 2: big}, exact=True)
    s("arith.sub", [o, i, i], lanes(lambda a, b: a - b), pre={1: unit(E, 1.5), 2: T})
    for k, (f, g) in enumerate(PAIRS[t]):
        s("arith.mul", [o, i, i], lanes(lambda a, b: a * b), pre={1: unit(E, f), 2: unit(E, g)}, bound={0: T}, name=vt + "arith.mul{%s,%s}" % (f, g), cut=1)
        s("arithex.intmul", [o, i, i], lanes(lambda a, b: a * b), pre={1: unit(E, f), 2: unit(E, g)}, name=vt + "arithex.intmul{%s,%s}" % (f, g))
    s("arith.sqr", [io], lanes(lambda a: a * a), pre={0: unit(E, SQR[t])}, bound={0: LOOSE1 if (t, w) == ("448", 1) else T}, cut=1)
    if (t, w) == ("448", 1):
        s("arith.mul", [o, i, i], lanes(lambda a, b: a * b), pre={1: LOOSE1, 2: LOOSE1}, bound={0: T}, name=vt + "arith.mul{loose}", cut=1)
        s("arith.sqr", [io], lanes(lambda a: a * a), pre={0: LOOSE1}, bound={0: LOOSE1}, name=vt + "arith.sqr{loose}", cut=1)
    s("arith.neg", [io], lanes(lambda a: 0 - a), pre={0: T}, bound={0: unit(E, 4.0) if w != 2 else T})
    if w == 1: s("arith.cmv", [("bit", None), o, i, i], lambda b, x, y: [[x[0] + b[0] * (y[0] - x[0])]], exact=True)
    if w == 2: s("arith.cmv", [("vbit", E), o, i, i], lambda b, x, y: [[p + q * (r - p) for q, p, r in zip(b, x, y)]], exact=True)
    s("arith.misc.copy", [o, i], lanes(lambda a: a), exact=True)
    s("arith.misc.zero", [o], lambda: [[0] * w], exact=True)
    if w < 4: s("arithex.addsub", [io, io], lambda a, b: [[x + y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]], pre={0: T, 1: T})
    else:
        s("arithex.addsub", [o, o, i, i], lambda a, b: [[x + y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]], pre={2: T, 3: T}, alias=[[0, 1, 2, 3], [0, 1, 1, 3], [0, 1, 2, 1], [0, 1, 2, 2]])
        s("arithex.addsublar", [io, io], lambda a, b: [[x + y for x, y in zip(a, b)], [x - y for x, y in zip(a, b)]], pre={0: [2**60] * E.n, 1: [2**59] * E.n})
    s("arithex.compress", [io], lanes(lambda a: a), pre={0: [2**63 - 1] * E.n}, bound={0: T})
    s("arithex.compressfast", [io], lanes(lambda a: a), pre={0: [2**(56 if w == 4 else 60)] * E.n})
    if w >= 2:
        s("arithex.intsqr", [io], lanes(lambda a: a * a), pre={0: unit(E, SQR[t])})
        s("arithex.compress2", [io, io], lambda a, b: [a, b], pre={0: [2**63 - 1] * E.n, 1: [2**63 - 1] * E.n}, bound={0: T, 1: T})
    if w == 2:
        E1 = R[t, "red1"]
        s("arithex.inter", [o, ("in", E1), ("in", E1)], lambda a, b: [[a[0], b[0]]], exact=True)
        s("arithex.deinter", [("out", E1), ("out", E1), i], lambda a: [[a[0]], [a[1]]], exact=True)
        s("arith.ngz", [o, i], lambda a: [[0 - a[0], a[1]]], pre={1: T})
    if w == 4:
        s("arithex.new_compressfast2", [io, io], lambda a, b: [a, b], pre={0: [2**(56 if t == '255' else 52)] * E.n, 1: [2**(56 if t == '255' else 52)] * E.n})
    return S
