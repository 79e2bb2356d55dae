"""Data flow of the signature schemes (C18-C21): the entry points executed over the contracts of hashing, reduction,
scalar multiplication and encoding.

Uninterpreted: H(octet string) for the hash functions, enc(point) for the encoding; a point is a linear combination
of the base point and of decoded points with integer polynomials as coefficients.  Octet strings are concatenations of bytes
(integer polynomials) and of whole caller buffers of symbolic length.  The result of every path is compared with the terms
that RFC 8032 prescribes, built in the same term algebra.  Each contract used here is verified by the checks of the callees,
which are run together with these."""
import time
from .core import *
from .fld import *
from . import scal, fm, points
from .scal import SM, ELL, INV4
from .points import KINDS
from .poly import key as pkey

class HTok:
    """state of a hash computation: what has been absorbed"""
    __slots__ = ("alg", "parts")
    def __init__(s, alg, parts): s.alg, s.parts = alg, parts
class PTok:
    __slots__ = ("kind", "val")
    def __init__(s, kind, val): s.kind, s.val = kind, val

SPEC = {"255": dict(n=32, hash=64, alg="SHA-512", top=253), "448": dict(n=57, hash=114, alg="SHAKE256", top=446)}
class Flow(SM):
    def __init__(s, mod, f):
        super().__init__(mod); s.f = f; s.relied = set(); s.memoH = {}; s.memoE = {}; s.memoR = {}; s.decoded = {}; s.distinct = set(); s.ndec = 0; s.qhook = None; s.encs = []
        C = s.contracts; F = s.f
        C["sph_sha512_init"] = lambda m, a: m.h_init("SHA-512", a[0])
        C["sph_sha512"] = C["sph_sha384"] = lambda m, a: m.h_update("SHA-512", a[0], a[1], m.c.norm(m.c.tow(a[2], 64)).p)
        C["sph_sha512_close"] = lambda m, a: m.h_close("SHA-512", a[0], a[1], 64, True)
        def init3(m, a):
            if a[1] != 256: raise Unsupported("hash of %s bits" % (a[1],))
            return m.h_init("SHAKE256", a[0])
        C["Init"] = init3
        C["Update"] = lambda m, a: m.h_update("SHAKE256", a[0], a[1], m.octets(a[2]))
        C["Final2"] = lambda m, a: m.h_close("SHAKE256", a[0], a[1], m.outlen(a[2]), False)
        def shake(m, a):
            m.digest("SHAKE256", m.absorb((), a[0], m.octets(a[1])), a[2], m.outlen(a[3])); return 0
        C["SHAKE256"] = shake
        cs = "calculate_s_ed" + ("25519" if F == "255" else "448")
        if cs in mod.funcs: C[cs] = lambda m, a: m.h_calcs(cs, a)
        if F == "255":
            C["point_multiplication_ed25519"] = lambda m, a: m.h_fixed(a, 32, 253)
            C["point_encoding_ed25519"] = lambda m, a: m.h_enc(a)
            C["point_decoding_ed25519"] = lambda m, a: m.h_dec(a)
            C["double_point_mult_4w_ed25519"] = lambda m, a: m.h_double(a)
        else:
            C["fixed_point_multiplication_ed448"] = lambda m, a: m.h_fixed(a, 56, 448)
            C["point_encoding_ed448"] = lambda m, a: m.h_enc(a)
            C["point_decoding_ed448"] = lambda m, a: m.h_dec(a)
            C["double_point_mult_4w_ed448"] = lambda m, a: m.h_double(a)
    def rely(s, key, fn, *a): s.relied.add((key, fn, a))
    # ------------------------------------------------------------ octet strings and hashing
    def octets(s, bits):
        w = s.c.norm(s.c.tow(bits, 64)); p = s.c.subst(w.p, s.c.assume)
        if any(k % 8 for k in p.values()): raise Unsupported("hash of a bit string at %s" % s.where())
        return {m: k // 8 for m, k in p.items()}
    def outlen(s, n):
        if not isinstance(n, int): raise Unsupported("symbolic digest length")
        return n
    def byte(s, p):
        x = s.load_int(p, 1)
        if isinstance(x, Undef): raise Violation("uninitialised", "an uninitialised byte is hashed or encoded at %s" % s.where())
        x = s.c.norm(s.c.tow(x, 8)); q = s.c.subst(x.p, s.c.assume)
        return q
    def absorb(s, parts, data, ln):
        out = list(parts)
        if not ln: return tuple(out)
        if not isinstance(data, Ptr): raise Violation("memory", "hash input is not a pointer at %s" % s.where())
        if len(ln) == 1 and () in ln:
            n = ln[()]
            s.check(data, n, "read")
            if data.obj.big: out.append(("x", data.obj.name, data.off, pkey(ln)))
            else:
                for i in range(n): out.append(("b", pkey(s.byte(Ptr(data.obj, data.off + i)))))
        else:
            # a whole caller buffer: exactly its symbolic length
            if not data.obj.big or data.off != 0 or pkey(ln) != data.obj.big: raise Violation("hash-input", "%s is hashed with a length other than its own at %s" % (data.obj.name, s.where()))
            out.append(("x", data.obj.name, 0, pkey(ln)))
        return tuple(out)
    def state(s, alg, p):
        s.check(p, 8, "read"); t = p.obj.cells.get(p.off)
        if t is None or not isinstance(t[0], HTok) or t[0].alg != alg: raise Violation("uninitialised", "the hash state is not initialised at %s" % s.where())
        return t[0]
    def setstate(s, p, t):
        s.check(p, 8, "write"); s.store_int(p, 8, 0); p.obj.cells[p.off] = (t, 8)
    def h_init(s, alg, p): s.setstate(p, HTok(alg, ())); return 0
    def h_update(s, alg, p, data, ln):
        t = s.state(alg, p); s.setstate(p, HTok(alg, s.absorb(t.parts, data, ln))); return 0
    def h_close(s, alg, p, out, n, again):
        t = s.state(alg, p); s.digest(alg, t.parts, out, n)
        if again: s.setstate(p, HTok(alg, ()))
        else: p.obj.cells.pop(p.off, None)
        return 0
    def digest(s, alg, parts, out, n):
        s.check(out, n, "write")
        for i, w in enumerate(s.H(alg, parts, n)): s.store_int(Ptr(out.obj, out.off + i), 1, w)
    def H(s, alg, parts, n):
        k = (alg, parts); d = s.memoH.setdefault(k, []); j = len(s.memoH)
        for i in range(len(d), n):
            if i in (0, 31, 55, 56):
                p = {}
                for b in range(8): p = padd(p, pscale({(s.c.atom("H%d[%d].%d" % (j, i, b), 0, 1).id,): 1}, 1 << b))
                d.append(W(8, p, 0, 255))
            else: d.append(s.c.fresh("H%d[%d]" % (j, i), 8))
        return d[:n]
    # ------------------------------------------------------------ numbers
    def value(s, p, n, nm):
        s.check(p, n, "read"); v = {}; i = 0
        while i < n:
            c = p.obj.cells.get(p.off + i); k = c[1] if c is not None and i + c[1] <= n else 1
            x = s.load_int(Ptr(p.obj, p.off + i), k)
            if isinstance(x, Undef): raise Violation("uninitialised", "byte %d given to %s is uninitialised at %s" % (i, nm, s.where()))
            v = padd(v, pscale(s.c.norm(s.c.tow(x, 8 * k)).p, 1 << 8 * i)); i += k
        return s.c.subst(v, s.c.assume)
    def words(s, p, n, nm):
        s.check(p, 8 * n, "read"); out = []
        for i in range(n):
            v = s.value(Ptr(p.obj, p.off + 8 * i), 8, nm); lo, hi = s.c.pbounds(v)
            kn = s.c.known.get(pkey(v))
            if kn: lo, hi = max(lo, kn[0]), min(hi, kn[1])
            out.append(W(64, v, max(lo, 0), min(hi, (1 << 64) - 1)))
        return out
    def residue(s, v, l):
        k = (l, pkey({m: x for m, x in ((m, x % l) for m, x in v.items()) if x}))
        if k not in s.memoR: s.memoR[k] = super().residue(v, l)
        return s.memoR[k]
    def below(s, v, b):
        """v <= b"""
        for l, k in s.memoR:
            if s.memoR[l, k] == v: return l - 1 <= b
        return s.c.pbounds(v)[1] <= b or s.c.prove_le(v, b, 5000)
    def h_calcs(s, fn, a):
        S, r, k, x = a; n = 32 if s.f == "255" else 56; s.rely((fn,), scal.verify_calcs, s.f)
        if any(s.overlap(S, SPEC[s.f]["n"], y, n) for y in (r, k, x)): raise Unsupported("overlapping arguments of " + fn)
        rv, kv, av = (s.value(y, n, fn) for y in (r, k, x)); s.put(S, s.residue(padd(rv, s.c.pmul(kv, av)), ELL[s.f].p), 0, ELL[s.f].p - 1, n // 8)
        if s.f == "448": s.store_int(Ptr(S.obj, S.off + 56), 1, 0)
    # ------------------------------------------------------------ points
    def lin(s, val):
        l = ELL[s.f].p; out = {}
        for g, p in val.items():
            if g == "B": p = {m: x for m, x in ((m, x % l) for m, x in p.items()) if x}
            if p: out[g] = p
        return out
    def enc(s, val):
        val = s.lin(val); k = tuple(sorted(((str(g), pkey(p)) for g, p in val.items()), key=lambda x: x[0]))
        if k not in s.memoE: s.memoE[k] = [s.c.fresh("E%d[%d]" % (len(s.memoE), i), 8) for i in range(SPEC[s.f]["n"])]
        return s.memoE[k]
    def h_fixed(s, a, n, top):
        P, r = a; K = KINDS[s.f]["xytz2"]; s.check(P, K.size, "write"); s.check(r, n, "read")
        v = s.value(r, n, "scalar multiplication")
        if top < 8 * n and not s.below(v, (1 << top) - 1): raise Violation("precondition:multiplication", "the scalar may reach 2^%d at %s" % (top, s.where()))
        s.wipe(P, K.size); P.obj.cells[P.off] = (PTok("xytz2", {"B": v}), 8)
    def wipe(s, p, n): s.clear(p, n); p.obj.written = True
    def point(s, p, kind):
        t = p.obj.cells.get(p.off) if isinstance(p, Ptr) else None
        if t is None or not isinstance(t[0], PTok) or t[0].kind != kind: raise Violation("precondition:point", "the operand is not the point a contract returned at %s" % s.where())
        return t[0].val
    def h_enc(s, a):
        out, P = a; n = SPEC[s.f]["n"]; s.check(out, n, "write"); v = s.point(P, "xytz2")
        s.wipe(P, KINDS[s.f]["xytz2"].size)
        for i, w in enumerate(s.enc(v)): s.store_int(Ptr(out.obj, out.off + i), 1, w)
        return 0
    def h_dec(s, a):
        A, X, b = a; n = SPEC[s.f]["n"]
        if not isinstance(A, Ptr) or X != 0: raise Unsupported("decoding into the two-way layout at %s" % s.where())
        ks = [pkey(s.byte(Ptr(b.obj, b.off + i))) for i in range(n)]; g = ("-A", tuple(ks))
        if g not in s.decoded:
            t = s.c.atom("decodes%d" % len(s.decoded), 0, 1, "wrap", None); t.bool = True
            s.decoded[g] = s.truth(W(1, {(t.id,): 1}, 0, 1), "contract")
        s.check(A, DSIZE[s.f], "write"); s.wipe(A, DSIZE[s.f])
        if not s.decoded[g]:
            return 1 if s.f == "255" else (1 << 32) - 1
        A.obj.cells[A.off] = (PTok("dec", {g: {(): 1}}), 8)
        return 0
    def h_double(s, a):
        Q, sc, h, A = a; n = SPEC[s.f]["n"]; top = SPEC[s.f]["top"]; nb = 32 if s.f == "255" else 56
        s.check(Q, n, "write"); s.check(sc, n, "read"); s.check(h, n, "read"); g = s.point(A, "dec")
        v, w = s.value(sc, nb, "double multiplication"), s.value(h, nb, "double multiplication")
        for x, y in ((v, "first"), (w, "second")):
            if s.f == "255" and not s.below(x, (1 << top) - 1): raise Violation("precondition:double multiplication", "the %s scalar may reach 2^%d at %s" % (y, top, s.where()))
        (gen, _), = g.items(); val = s.dvalue(v, w, gen)
        s.wipe(A, DSIZE[s.f])
        ws = s.qhook(val) if s.qhook else s.enc(val)
        for i, x in enumerate(ws): s.store_int(Ptr(Q.obj, Q.off + i), 1, x)
    def dvalue(s, v, w, gen):
        """[v]B + [w](-A); on edwards448 the multiple of -A is 4*(w/4 mod l) (multiplication passes through the isogeny of degree 4)"""
        if s.f == "255": return {"B": v, gen: w}
        return {"B": v, gen: pscale(s.residue(pscale(w, INV4), ELL["448"].p), 4)}
    # ------------------------------------------------------------ comparison of octet strings
    def differs(s, x, y):
        """bytes that are assumed different are among the differences of two words"""
        if not isinstance(x, W) or not isinstance(y, W): return False
        d = psub(x.p, y.p); A = set(m[0] for m in d if len(m) == 1)
        return any((a, b) in s.distinct or (b, a) in s.distinct for a in A for b in A if d[a,] == -d[b,])
    def icmp(s, pred, a, b, w):
        if pred in ("eq", "ne") and s.distinct and s.differs(a, b): return int(pred == "ne")
        return super().icmp(pred, a, b, w)
    def binop(s, op, a, b, w):
        if s.distinct and op in ("xor", "or", "sub") and isinstance(a, W) and isinstance(b, W):
            if op == "xor" and s.differs(a, b): return s.c.fresh("x%d" % len(s.c.atoms), w, 1)
            if op == "xor" and a.p == b.p: return 0
            if op in ("xor", "or") and (op == "or" or all(len(x.p) == 1 for x in (a, b))): return s.c.fresh("x%d" % len(s.c.atoms), w, max(a.lo, b.lo) if op == "or" else 0)
        return super().binop(op, a, b, w)
DSIZE = {"255": 320, "448": 512}

def memcmp_hook(m, a):
    n = a[2]
    if not isinstance(n, int): raise Unsupported("memcmp length")
    m.check(a[0], n, "read"); m.check(a[1], n, "read"); und = []
    for i in range(n):
        x = m.load_int(Ptr(a[0].obj, a[0].off + i), 1); y = m.load_int(Ptr(a[1].obj, a[1].off + i), 1)
        if isinstance(x, Undef) or isinstance(y, Undef): raise Violation("uninitialised", "memcmp of uninitialised bytes")
        e = m.icmp("eq", x, y, 8)
        if isinstance(e, W): e = m.c.norm(e); e = e.lo if e.lo == e.hi else e
        if isinstance(e, int):
            if not e: return m.c.fresh("memcmp%d" % len(m.c.atoms), 32, 1)
        else: und.append(e)
    for e in und:
        if not m.truth(e, "memcmp"): return m.c.fresh("memcmp%d" % len(m.c.atoms), 32, 1)
    return 0

# ---------------------------------------------------------------- the schemes
class Api:
    def __init__(s, slot, f, ctx, ph): s.slot, s.f, s.ctx, s.ph = slot, f, ctx, ph      # ctx: None or domain separation with a context
APIS = {"255": [Api("Ed25519.Pure", "255", None, 0), Api("Ed25519.PreHash", "255", True, 1), Api("Ed25519.Context", "255", True, 0)],
        "448": [Api("Ed448.PureContext", "448", True, 0), Api("Ed448.PreHash", "448", True, 1)]}
OK = {"keygen": 0, "sign": 1, "verify": 2}
BADCTX = 5
def const_bytes(b): return tuple(("b", pkey(pconst(x))) for x in b)
class Run:
    """one symbolic call of an entry point and the terms of the specification"""
    def __init__(s, api, ctxlen, big=False):
        s.api = api; s.f = api.f; s.n = SPEC[s.f]["n"]; s.ctxlen = ctxlen; s.m = m = Flow(module(), s.f); m.contracts["memcmp"] = memcmp_hook; c = m.c
        s.ml = c.atom("message_length", 0, (1 << 61) - 1); s.msg = m.new("message", 1 << 62, "arg"); s.msg.big = pkey({(s.ml.id,): 1})
        s.sk = s.buf("private_key", s.n); s.pk = s.buf("public_key", s.n); s.args_ctx = []
        s.big = big
        if api.ctx:
            if big: cl = c.atom("context_length", 256, (1 << 64) - 1); s.ctx = m.new("context", 1 << 62, "arg"); s.ctx.big = pkey({(cl.id,): 1}); s.args_ctx = [Ptr(s.ctx), c.var(cl, 64)]
            else:
                s.ctx = s.buf("context", max(ctxlen, 1)); s.args_ctx = [Ptr(s.ctx) if ctxlen else 0, ctxlen]
    def buf(s, nm, n, vals=None):
        o = s.m.new(nm, n, "arg")
        for i in range(n): o.cells[i] = (s.m.c.fresh("%s[%d]" % (nm, i), 8) if vals is None or vals[i] is None else vals[i], 1)
        return o
    def obytes(s, o, a=0, n=None): return tuple(("b", pkey(s.m.byte(Ptr(o, a + i)))) for i in range(o.size if n is None else n))
    def wbytes(s, ws): return tuple(("b", pkey(s.m.c.norm(s.m.c.tow(w, 8)).p)) for w in ws)
    def message(s): return (("x", s.msg.name, 0, s.msg.big),)
    def dom(s):
        if s.api.ctx is None: return ()
        tag = b"SigEd25519 no Ed25519 collisions" if s.f == "255" else b"SigEd448"
        return const_bytes(tag + bytes([s.api.ph, s.ctxlen])) + (s.obytes(s.ctx, 0, s.ctxlen) if s.ctxlen else ())
    def alg(s): return SPEC[s.f]["alg"]
    def val(s, ws): 
        v = {}
        for i, w in enumerate(ws): v = padd(v, pscale(w.p, 1 << 8 * i))
        return v
    def secret(s):
        """(scalar, prefix octets) of the private key"""
        h = s.m.H(s.alg(), s.obytes(s.sk), SPEC[s.f]["hash"]); n = s.n; sc = list(h[:n])
        def bits(w, keep, set_):
            p = {}
            for m, k in w.p.items():
                if k & keep: p[m] = k
            return W(8, padd(p, pconst(set_)), 0, 255)
        if s.f == "255": sc[0] = bits(sc[0], 248, 0); sc[31] = bits(sc[31], 63, 64)
        else: sc[0] = bits(sc[0], 252, 0); sc[55] = bits(sc[55], 127, 128); sc[56] = W(8, {}, 0, 0)
        return s.val(sc), h[n:]
    def M(s):
        """the message or its digest"""
        if not s.api.ph: return s.message()
        return s.wbytes(s.m.H(s.alg(), s.message(), 64))
    def hashmod(s, parts): return s.m.residue(s.val(s.m.H(s.alg(), parts, SPEC[s.f]["hash"])), ELL[s.f].p)

def frames(run, R_, snaps, nm):
    for o, sn in snaps:
        if o.cells == sn: R_.ok("frame:%s unchanged (%s)" % (o.name.split("#")[0], nm), "store log")
        else: R_.bad("frame:" + o.name.split("#")[0], "the operand is modified (%s)" % nm)
def finish_run(run, R_, nm):
    R_.relied |= run.m.relied; R_.ok("memory-safety:%d accesses (%s)" % (run.m.access_checks, nm), "bounds of every access", 0.0)
def rc_of(m, r):
    if isinstance(r, W):
        r = m.c.norm(r); r = r.lo if r.lo == r.hi else r
    return r
def same_bytes(m, o, off, ws):
    for i, w in enumerate(ws):
        x = m.load_int(Ptr(o, off + i), 1)
        if isinstance(x, Undef): return "byte %d is not written" % (off + i)
        if pkey(m.c.norm(m.c.tow(x, 8)).p) != pkey(m.c.norm(m.c.tow(w, 8)).p): return "byte %d differs from the specification" % (off + i)
    return None
def paths(make, call):
    """every path of a call (normally one)"""
    pend = [[]]; k = 0
    while pend:
        run = make(); run.m.decisions = pend.pop(); run.m.pending = []; k += 1
        if k > 64: raise Unsupported("too many paths")
        yield run, call(run)
        pend += run.m.pending
def verify_keygen(api, fn):
    t0 = time.time(); R_ = Result("%s.keygen %s" % (api.slot, fn)); R_.relied = set()
    def call(run): run.out = run.m.new("public_key_out", run.n, "arg"); run.snap = dict(run.sk.cells); return rc_of(run.m, run.m.call(fn, [Ptr(run.out), Ptr(run.sk)]))
    for run, r in paths(lambda: Run(api, 0), call):
        m = run.m; a, _ = run.secret(); e = same_bytes(m, run.out, 0, m.enc({"B": a}))
        if e: R_.bad("post:public key", e)
        else: R_.ok("post:public key = enc([clamped H(sk)]B)", "term identity", time.time() - t0)
        if r == OK["keygen"]: R_.ok("post:return code", "concrete")
        else: R_.bad("post:return code", "%r" % (r,))
        frames(run, R_, [(run.sk, run.snap)], "keygen"); finish_run(run, R_, "keygen")
    R_.wall = time.time() - t0
    return R_
def verify_sign(api, fn, lens):
    t0 = time.time(); R_ = Result("%s.sign %s [context length %s]" % (api.slot, fn, "%s to %s" % (lens[0], lens[-1]) if lens[0] is not None else "above 255")); R_.relied = set(); good = 0
    def todo():
        for cl in lens:
            big = cl is None
            def call(run):
                run.sig = run.m.new("signature", 2 * run.n, "arg"); run.snap = [(o, dict(o.cells)) for o in [run.sk, run.pk] + ([run.ctx] if api.ctx and not big else [])]
                try: return rc_of(run.m, run.m.call(fn, [Ptr(run.sig), Ptr(run.msg), run.m.c.var(run.ml, 64)] + run.args_ctx + [Ptr(run.pk), Ptr(run.sk)]))
                except Violation as e: return e
            for run, r in paths(lambda: Run(api, cl or 0, big), call): yield cl, run, r
    for cl, run, r in todo():
        big = cl is None; m = run.m; n = run.n; sig = run.sig; sn = run.snap; nm = "context %s" % ("above 255" if big else cl)
        if isinstance(r, Violation): R_.bad(r.ob, "%s (context length %s)" % (r.msg, cl)); break
        if big:
            if r == BADCTX and not sig.written: R_.ok("post:error and nothing written (%s)" % nm, "concrete")
            else: R_.bad("post:error", "a context of more than 255 bytes: return code %r, signature %s" % (r, "written" if sig.written else "not written"))
            finish_run(run, R_, nm); continue
        a, pre = run.secret(); M = run.M(); rr = run.hashmod(run.dom() + run.wbytes(pre) + M); Renc = m.enc({"B": rr})
        e = same_bytes(m, sig, 0, Renc)
        if e: R_.bad("post:R (%s)" % nm, e); break
        k = run.hashmod(run.dom() + run.wbytes(Renc) + run.obytes(run.pk) + M); S = m.residue(padd(rr, m.c.pmul(k, a)), ELL[api.f].p)
        try: v = m.value(Ptr(sig, n), n, "the caller")
        except Violation as e: R_.bad("post:S (%s)" % nm, e.msg); break
        if psub(v, S): R_.bad("post:S (%s)" % nm, "S is not r + k*s modulo the order"); break
        if m.lin({"B": psub(psub(v, m.c.pmul(k, a)), rr)}): R_.bad("lemma:verification equation", "S*B - k*A is not R"); break
        if r != OK["sign"]: R_.bad("post:return code (%s)" % nm, "%r" % (r,)); break
        if any(o.cells != x for o, x in sn): R_.bad("frame:inputs (%s)" % nm, "an input is modified"); break
        R_.relied |= m.relied; good += 1; acc = m.access_checks
    if good:
        R_.ok("post:R = enc([H(dom,prefix,M)]B): %d context lengths" % good, "term identity", time.time() - t0); R_.ok("post:S = r + H(dom,R,A,M)*s mod l: %d context lengths" % good, "term identity, contract of calculate_s")
        R_.ok("lemma:S*B - k*A = R for A = s*B: accepted by verification", "polynomial identity modulo l"); R_.ok("post:return code", "concrete"); R_.ok("frame:inputs unchanged", "store log"); R_.ok("memory-safety:%d accesses" % acc, "bounds of every access", 0.0)
    R_.wall = time.time() - t0
    return R_
def s_classes(f):
    """a partition of the strings by comparison with the order: (name, bytes or None, below the order)"""
    n = SPEC[f]["n"]; o = ELL[f].p.to_bytes(n, "little"); out = [("S = order", list(o), False)]
    for i in range(n - 1, -1, -1):
        top = [None] * i
        if o[i] > 0: out.append(("S below at byte %d" % i, top + [(0, o[i] - 1)] + list(o[i + 1:]), True))
        if o[i] < 255: out.append(("S above at byte %d" % i, top + [(o[i] + 1, 255)] + list(o[i + 1:]), False))
    return out
def verify_verify(api, fn, lens, classes=None):
    """every class of S, decodable or not, R equal to the prescribed encoding or different at byte j"""
    t0 = time.time(); R_ = Result("%s.verify %s [context length %s]" % (api.slot, fn, "%s to %s" % (lens[0], lens[-1]) if lens[0] is not None else "above 255")); R_.relied = set(); n = SPEC[api.f]["n"]; counts = {}
    allc = s_classes(api.f)
    for cl in lens:
        for ci, (cname, pat, below) in enumerate(allc):
            if classes is not None and ci not in classes: continue
            full = below and (cl in (lens[0], lens[-1]) or api.ctx is None)
            for j in ([None] + list(range(n)) if full else [None, (cl or 0) * 7 % n] if below else [None]):
                pend = [[]]
                while pend:
                    big = cl is None; run = Run(api, cl or 0, big); m = run.m; c = m.c; m.decisions = pend.pop(); m.pending = []; path = list(m.decisions)
                    sig = run.buf("signature", 2 * n); used = []
                    for i, x in enumerate(pat):
                        if isinstance(x, tuple): sig.cells[n + i] = (c.fresh("S[%d]" % i, 8, *x), 1) if x[0] != x[1] else (x[0], 1)
                        elif x is not None: sig.cells[n + i] = (x, 1)
                    def q(val, run=run, m=m, sig=sig, used=used):
                        used.append(m.lin(val)); Rb = [sig.cells[i][0] for i in range(n)]
                        if j is None: return Rb
                        out = [m.c.fresh("Q[%d]" % i, 8) for i in range(n)]; m.distinct.add((next(iter(Rb[j].p))[0], next(iter(out[j].p))[0])); return out
                    m.qhook = q; ins = [run.pk, sig] + ([run.ctx] if api.ctx and not big else []); sn = [(o, dict(o.cells)) for o in ins]
                    nm = "%s, R %s, context %s" % (cname, "as prescribed" if j is None else "different at byte %d" % j, "above 255" if big else cl)
                    try: r = rc_of(m, m.call(fn, [Ptr(run.msg), c.var(run.ml, 64)] + run.args_ctx + [Ptr(run.pk), Ptr(sig)]))
                    except Violation as e: R_.bad(e.ob, "%s (%s)" % (e.msg, nm)); R_.wall = time.time() - t0; return R_
                    pend += m.pending
                    if len(pend) > 400: raise Unsupported("too many paths: " + nm)
                    if not isinstance(r, int): R_.bad("post:return code", "it depends on data (%s)" % nm); return R_
                    if any(o.cells != x for o, x in sn): R_.bad("frame:inputs", "an input is modified (%s)" % nm); return R_
                    dec = next(iter(m.decoded.values()), None)
                    if len(m.decoded) > 1 or any(g[1] != tuple(k for _, k in run.obytes(run.pk)) for g in m.decoded): R_.bad("post:decoding", "something other than the public key is decoded (%s)" % nm); return R_
                    if big: want = False
                    elif not below: want = False
                    elif not m.decoded: R_.bad("post:decoding", "the public key is not decoded (%s)" % nm); return R_
                    elif not dec: want = False
                    else:
                        if not used: R_.bad("post:equation", "the verification equation is not evaluated (%s)" % nm); return R_
                        S = m.value(Ptr(sig, n), n, "the specification"); k = run.hashmod(run.dom() + run.obytes(sig, 0, n) + run.obytes(run.pk) + run.M())
                        (g, _), = m.decoded.items()
                        if used != [m.lin(m.dvalue(S, k, g))]: R_.bad("post:equation", "the point compared with R is not S*B - k*A (%s)" % nm); return R_
                        want = j is None
                    if (r == OK["verify"]) != want: R_.bad("post:accepts exactly valid signatures", "return code %d (%s%s)" % (r, nm, "" if dec is not False else ", undecodable key")); R_.wall = time.time() - t0; return R_
                    kk = "accepted" if want else "error: " + ("context above 255" if big else "S not below the order" if not below else "undecodable key" if not dec else "R differs")
                    counts[kk] = counts.get(kk, 0) + 1; R_.relied |= m.relied
    for k, x in sorted(counts.items()): R_.ok("post:%s: %d cases" % (k, x), "term identity", (time.time() - t0) / len(counts))
    R_.ok("frame:inputs unchanged", "store log"); R_.ok("memory-safety", "bounds of every access", 0.0); R_.wall = time.time() - t0
    return R_

def resolve_apis(f, op):
    """(api, function) of every variant"""
    ps = [(a, a.slot + "." + op) for a in APIS[f]]; sl = slots([p for _, p in ps]); mod = module()
    return [(a, resolve(mod, p, sl[p])) for a, p in ps]
def chunks(api, k):
    if not api.ctx: return [[0]]
    return [list(range(i, 256, k)) for i in range(k)] + [[None]]
def tasks(f, op):
    T = []; bad = []
    for a, fn in resolve_apis(f, op):
        if fn is None: r = Result("%s.%s" % (a.slot, op)); r.bad("interface:%s.%s" % (a.slot, op), "the interface slot is empty"); r.wall = 0; bad.append(r); continue
        if op == "keygen": T.append((verify_keygen, (a, fn)))
        elif op == "sign": T += [(verify_sign, (a, fn, c)) for c in chunks(a, 4)]
        else:
            n = len(s_classes(f))
            T += [(verify_verify, (a, fn, [0, 255] if a.ctx else [0], list(range(i, n, 8)))) for i in range(8)]
            if a.ctx: T += [(verify_verify, (a, fn, [None], [0, 1])), (verify_verify, (a, fn, list(range(256)), [0, 1, 2]))]
    return T, bad

# ---------------------------------------------------------------- native trials
def replay(f, ops, seconds=40):
    import ctypes, random
    from . import ptreplay as pr, replay as rp, eddsa
    so = pr.unit_library("plain", ""); names = {"255": [("Ed25519", 0, None), ("Ed25519ph", 1, b""), ("Ed25519ctx", 0, b"")], "448": [("Ed448", 0, b""), ("Ed448ph", 1, b"")]}[f]
    def run(report):
        A = eddsa.apis(ctypes.CDLL(so)); rng = random.Random(77); end = time.time() + seconds; it = 0
        def rb(n): return bytes(rng.randrange(256) for _ in range(n))
        def odd(sch):
            """a private key with an unusual scalar"""
            best = None
            for _ in range(4000):
                k = rng.randrange(1 << 64).to_bytes(sch.n, "little"); h = sch.H(k)[:sch.n]; t = sch.n - (1 if sch.n == 32 else 2); x = sorted([sum(8 - bin(b ^ c).count("1") for b in h[t - 1:t] + bytes([h[t] << 2 & 255]) + h[1:2]) + 2 * (h[t - 1] in (0, 255)) for c in (0, 255)])[1]
                if best is None or x > best[0] or x == best[0] and rng.random() < 0.3: best = (x, k)
            return best[1]
        while time.time() < end:
            nm, ph, hasctx = names[it % len(names)]; a = A[nm]; sch = a.sch; n = sch.n; l = sch.cv.l
            ctx = None if hasctx is None else rb(rng.choice([0, 1, 8, 254, 255, rng.randrange(256)])); m = rb(rng.choice([0, 1, 31, 63, 64, 71, 72, 111, 112, 127, 128, 129, 135, 136, 137, 200, rng.randrange(400)]))
            sk = rng.choice([rb(n), bytes(n), b"\xff" * n, odd(sch)]); it += 1; rec = dict(scheme=nm, private_key=sk.hex(), message=m.hex(), context=None if ctx is None else ctx.hex()); report(rec)
            pk = sch.public(sk); sig = sch.sign(sk, pk, m, ctx, ph)
            if "keygen" in ops:
                rc, q = a.keygen(sk)
                if rc != 0 or q != pk: return dict(rec, operation="keygen", returned=[rc, q.hex()], expected=[0, pk.hex()])
            if "sign" in ops:
                rc, g = a.sign(sk, pk, m, ctx)
                if rc != 1 or g != sig: return dict(rec, operation="sign", returned=[rc, g.hex()], expected=[1, sig.hex()])
                if ctx is not None and it < 40:
                    rc, g = a.sign(sk, pk, m, rb(256) + ctx)
                    if rc != BADCTX or any(g): return dict(rec, operation="sign with a context of %d bytes" % (256 + len(ctx)), returned=[rc, g.hex()], expected="error and nothing written")
            if "verify" in ops:
                k = it // len(names) % 14; S = int.from_bytes(sig[n:], "little"); m2, p2, c2, g2 = m, pk, ctx, sig
                if k == 1: g2 = sig[:n] + min(S + l, 256 ** n - 1).to_bytes(n, "little")
                elif k == 2: i = rng.randrange(8 * n); g2 = (int.from_bytes(sig[:n], "little") ^ 1 << i).to_bytes(n, "little") + sig[n:]
                elif k == 3: i = rng.randrange(8 * n); g2 = sig[:n] + (S ^ 1 << i).to_bytes(n, "little")
                elif k == 4: m2 = m + b"x"
                elif k == 5: p2 = (rng.randrange(sch.cv.f.p) | rng.randrange(2) << 8 * n - 1).to_bytes(n, "little")
                elif k == 6 and ctx is not None: c2 = (ctx + b"y")[-255:] if len(ctx) < 255 else ctx[:-1]
                elif k == 7: p2 = rng.choice([1, sch.cv.f.p - 1, 0, sch.cv.f.p, sch.cv.f.p + 1, 1 | 1 << 8 * n - 1]).to_bytes(n, "little")
                elif k == 8:      # forged for a key of small order
                    p2 = (1).to_bytes(n, "little"); S2 = rng.choice([0, 1, l - 1, rng.randrange(l)]); g2 = sch.enc(sch.cv.mul(S2, sch.cv.B)) + S2.to_bytes(n, "little")
                elif k == 9: p2 = (1).to_bytes(n, "little"); S2 = rng.choice([l, l + 1, l + rng.randrange(l)]); g2 = sch.enc(sch.cv.mul(S2 % l, sch.cv.B)) + S2.to_bytes(n, "little")
                elif k == 10: i = rng.choice([0, n - 1, n // 2]); b = bytearray(sig); b[i] ^= 1 << rng.randrange(8); g2 = bytes(b)
                elif k == 11:
                    p2 = (1).to_bytes(n, "little"); S2 = rng.randrange(l); g2 = bytearray(sch.enc(sch.cv.mul(S2, sch.cv.B)) + S2.to_bytes(n, "little")); g2[rng.choice([n - 1, n - 1, 0, rng.randrange(n)])] ^= 1 << rng.choice([7, rng.randrange(8)]); g2 = bytes(g2)
                want = sch.verify(p2, m2, g2, c2, ph); rc = a.verify(p2, m2, g2, c2)
                if (rc == 2) != (want is True): return dict(rec, operation="verify", public_key=p2.hex(), message=m2.hex(), context=None if c2 is None else c2.hex(), signature=g2.hex(), returned=rc, expected="accept" if want else "reject")
        return None
    return rp.in_child(run, timeout=seconds + 100)
