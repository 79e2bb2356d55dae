"""RFC 8032 in Python integers (the oracle of the native trials) and the library's signature objects through ctypes."""
import hashlib, ctypes
from .points import *

class Scheme:
    def __init__(s, cv, n, name): s.cv, s.n, s.name = cv, n, name
    def H(s, *parts):
        m = b"".join(parts)
        return hashlib.sha512(m).digest() if s.n == 32 else hashlib.shake_256(m).digest(114)
    def PH(s, m): return hashlib.sha512(m).digest() if s.n == 32 else hashlib.shake_256(m).digest(64)
    def enc(s, P): return (P[1] | (P[0] & 1) << 8 * s.n - 1).to_bytes(s.n, "little")
    def dec(s, b):
        v = int.from_bytes(b, "little"); sg = v >> 8 * s.n - 1; y = v & (1 << 8 * s.n - 1) - 1; p = s.cv.f.p
        if y >= p: return None
        den = (s.cv.d * y * y - s.cv.a) % p; x2 = (y * y - 1) * pow(den, p - 2, p) % p
        if p % 4 == 3: x = pow(x2, (p + 1) // 4, p)
        else:
            x = pow(x2, (p + 3) // 8, p)
            if (x * x - x2) % p: x = x * pow(2, (p - 1) // 4, p) % p
        if (x * x - x2) % p or (x == 0 and sg): return None
        return (x if x & 1 == sg else p - x, y)
    def secret(s, sk):
        h = bytearray(s.H(sk)); n = s.n
        if n == 32: h[0] &= 248; h[31] &= 127; h[31] |= 64
        else: h[0] &= 252; h[55] |= 128; h[56] = 0
        return int.from_bytes(h[:n], "little"), bytes(h[n:])
    def public(s, sk): return s.enc(s.cv.mul(s.secret(sk)[0], s.cv.B))
    def dom(s, ctx, ph):
        if s.n == 57: return b"SigEd448" + bytes([ph, len(ctx)]) + ctx
        return b"" if ctx is None else b"SigEd25519 no Ed25519 collisions" + bytes([ph, len(ctx)]) + ctx
    def sign(s, sk, pk, m, ctx=None, ph=0):
        a, pre = s.secret(sk); d = s.dom(ctx, ph); m = s.PH(m) if ph else m; l = s.cv.l
        r = int.from_bytes(s.H(d, pre, m), "little") % l; R = s.enc(s.cv.mul(r, s.cv.B))
        h = int.from_bytes(s.H(d, R, pk, m), "little") % l
        return R + ((r + h * a) % l).to_bytes(s.n, "little")
    def verify(s, pk, m, sig, ctx=None, ph=0):
        """None: the public key does not decode; else the byte comparison of R with S*B - h*A, S below the order"""
        A = s.dec(pk)
        if A is None: return None
        R, S = sig[:s.n], int.from_bytes(sig[s.n:], "little")
        if S >= s.cv.l: return False
        h = int.from_bytes(s.H(s.dom(ctx, ph), R, pk, s.PH(m) if ph else m), "little") % s.cv.l
        return s.enc(s.cv.add(s.cv.mul(S, s.cv.B), s.cv.mul(h, s.cv.neg(A)))) == R
E25519 = Scheme(ED25519, 32, "Ed25519"); E448 = Scheme(ED448, 57, "Ed448")

class Api:
    """one signature object of the library: member k of the global structure"""
    def __init__(s, lib, sch, k, ctx):
        t = (ctypes.c_void_p * (12 * (k + 1))).in_dll(lib, sch.name); s.sch = sch; s.ctx = ctx; b = 12 * k
        P, U = ctypes.c_void_p, ctypes.c_uint64; ext = [P, U] if ctx else []
        s._kg = ctypes.CFUNCTYPE(ctypes.c_int, P, P)(t[b]); s._sg = ctypes.CFUNCTYPE(ctypes.c_int, P, P, U, *ext, P, P)(t[b + 1]); s._vf = ctypes.CFUNCTYPE(ctypes.c_int, P, P, U, *ext, P, P)(t[b + 2]) if 0 else ctypes.CFUNCTYPE(ctypes.c_int, P, U, *ext, P, P)(t[b + 2])
    def buf(s, n, d=b""):
        raw = ctypes.create_string_buffer(n + 64); o = -ctypes.addressof(raw) % 32; v = (ctypes.c_uint8 * n).from_buffer(raw, o)
        for i, x in enumerate(d): v[i] = x
        return v
    def keygen(s, sk): pk = s.buf(s.sch.n); rc = s._kg(ctypes.addressof(pk), ctypes.addressof(s.buf(s.sch.n, sk))); return rc, bytes(pk)
    def args(s, m, ctx):
        mb = s.buf(max(1, len(m)), m); cb = s.buf(max(1, len(ctx or b"")), ctx or b""); s.keep = (mb, cb)
        return (ctypes.addressof(mb), len(m)) + ((ctypes.addressof(cb), len(ctx or b"")) if s.ctx else ())
    def sign(s, sk, pk, m, ctx=None):
        g = s.buf(2 * s.sch.n); a = s.args(m, ctx); k = s.buf(s.sch.n, sk); q = s.buf(s.sch.n, pk); rc = s._sg(ctypes.addressof(g), *a, ctypes.addressof(q), ctypes.addressof(k))
        return rc, bytes(g)
    def verify(s, pk, m, sig, ctx=None):
        a = s.args(m, ctx); g = s.buf(2 * s.sch.n, sig); q = s.buf(s.sch.n, pk); return s._vf(*a, ctypes.addressof(q), ctypes.addressof(g))
def apis(lib): return {"Ed25519": Api(lib, E25519, 0, False), "Ed25519ph": Api(lib, E25519, 1, True), "Ed25519ctx": Api(lib, E25519, 2, True), "Ed448": Api(lib, E448, 0, True), "Ed448ph": Api(lib, E448, 1, True)}
