"""Contracts of point encoding and decoding (C16, C17).

Encoding: for a representation X=x*Z, Y=y*Z of any point, the string is the canonical encoding of y with the parity of
the canonical residue of x in the top bit.
Decoding: the field contracts give the computed root r as a monomial c*u^i*v^j in u=y^2-1 and v=d*y^2-a.  With q=(p-1)/4
(or (p-1)/2) the class e of u and v under the q-th power decides whether u/v has a root; every class is run separately,
on every path, for canonical y; paths that linear integer arithmetic refutes are dropped.  On the rest the return value, r and
the output point are compared with the definition.  u = 0 and, for edwards25519, y >= p are finitely many strings: they are
executed concretely."""
import time, random, os, ctypes
from .core import *
from .fld import *
from .fe import V
from . import fm, fieldspecs
from .points import *

ENC = {"255": "point_encoding_ed25519", "448": "point_encoding_ed448"}
DEC = {"255": "point_decoding_ed25519", "448": "point_decoding_ed448"}
ECURVE = {"255": ED25519, "448": ED448}
NSTR = {"255": 32, "448": 57}

def parity_of(c, w): return c.split(w, 1)[0]
def verify_encoding(f):
    t0 = time.time(); mc = fm.FM(module(), [f]); E = mc.fe[f.tag]; kd = KINDS[f.tag]["xytz2"]; c = mc.c
    R_ = Result(ENC[f.tag]); R_.need = mc.need; n = NSTR[f.tag]
    P = mc.new("P", kd.size, "arg"); out = mc.new("enc", n, "arg")
    x, y, z = (mc.fvar(f, k) for k in "xyz"); E.units.add(var_of(z)); pt = kd.pts[0]
    for k, t in coords(E, None, "XYZT", x, y, z).items():
        off, rep, lane = pt[k]; mc.write(f, rep, Ptr(P, off), lane, t.t, maxb(rep))
    snap = dict(P.cells)
    try: mc.call(ENC[f.tag], [Ptr(out), Ptr(P)])
    finally: R_.insts = mc.results()
    yw = mc.ser_words(f, y.t); xw = mc.ser_words(f, x.t); par = parity_of(c, xw[0]); m = f.nbytes // 8
    want = [w for w in yw]; 
    got = [mc.load_int(Ptr(out, 8 * i), 8) for i in range(m)]
    if any(isinstance(g, Undef) for g in got): R_.bad("encoding:unwritten", "part of the string is not written"); return R_
    if n == 32: want[3] = W(64, padd(want[3].p, pscale(par.p, 1 << 63)), 0, (1 << 64) - 1)
    for i in range(m):
        d = psub(c.norm(c.tow(got[i], 64)).p, want[i].p); t1 = time.time()
        if not d: R_.ok("encoding:word%d" % i, "field term identity")
        elif c.prove_le(d, 0) and c.prove_ge(d, 0): R_.ok("encoding:word%d" % i, "z3 linear integer arithmetic", time.time() - t1)
        else: R_.bad("encoding:word%d" % i, "the string is not the canonical encoding: difference %s" % c.show(d))
    if n == 57:
        g = mc.load_int(Ptr(out, 56), 1)
        if isinstance(g, Undef): R_.bad("encoding:byte56", "not written")
        else:
            d = psub(c.norm(c.tow(g, 8)).p, pscale(par.p, 128))
            if not d or c.prove_le(d, 0) and c.prove_ge(d, 0): R_.ok("encoding:byte56", "field term identity")
            else: R_.bad("encoding:byte56", "the top byte is not the parity of x: %s" % c.show(d))
    if P.cells == snap: R_.ok("frame:P unchanged", "store log")
    else: R_.ok("frame:P may change", "not claimed")
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.wall = time.time() - t0
    return R_

class DecM(fm.FM):
    """comparisons of monomials in u and v are decided by the class e"""
    case = None; raw = None
    def fval(s, f, p):
        # the raw string of the non-canonical class holds p + y
        if s.raw is not None:
            d = {m: k for m, k in s.c.expand(psub(p, s.raw[0])).items() if k % f.p}
            if not d: return s.raw[1]
        return super().fval(f, p)
    def comparison(s, f, ta, tb):
        E = s.fe[f.tag]; ta, tb = E.intern(ta), E.intern(tb)
        if s.case is None: return super().comparison(f, ta, tb)
        if same(s, f, ta, tb): return 0
        at = s.c.atom("cmp%d" % len(s.c.atoms), 1, (1 << 31) - 1, "cmp", (f.tag, ta, tb))
        return W(32, {(at.id,): 1}, 1, (1 << 31) - 1)
def sumwords(ws):
    z = {}
    for i, w in enumerate(ws): z = padd(z, pscale(w.p, 1 << 64 * i))
    return z
def mono(s, t):
    """(constant, exponent of u, exponent of v) of a monomial in u and v"""
    if len(t) != 1: raise Unsupported("not a monomial in y^2-1 and d*y^2-a")
    (m, k), = t.items(); e = dict(m); u, v = s.uv
    if set(e) - {u, v}: raise Unsupported("not a monomial in y^2-1 and d*y^2-a")
    return k, e.get(u, 0), e.get(v, 0)
def same(s, f, ta, tb):
    """equality of two monomials in the class s.case = (q, direction, value)"""
    p = f.p; q, (du, dv), e = s.case
    k1, a1, b1 = mono(s, ta); k2, a2, b2 = mono(s, tb); a, b = (a1 - a2) % (p - 1), (b1 - b2) % (p - 1); g = 1
    for n in range((p - 1) // q):
        if (a, b) == (n * q * du % (p - 1), n * q * dv % (p - 1)): return k1 * g % p == k2
        g = g * e % p
    raise Unsupported("comparison of different powers of y^2-1 and d*y^2-a")
def paths(f, case, canonical, which):
    """all paths of a decoding"""
    pend = [[]]
    n = NSTR[f.tag]; cv = ECURVE[f.tag]; fn = DEC[f.tag]; total = 0
    while pend:
        m = DecM(module(), [f], use={"arith.misc.ser", "arith.misc.unser", "arith.cmp", "canon"}); m.fork_ok = True; m.case = case
        m.decisions = pend.pop(); m.pending = []; total += 1
        if total > 64: raise Unsupported("too many paths in %s" % fn)
        E = m.fe[f.tag]; c = m.c; y = m.fvar(f, "y"); s = m.new("string", n, "arg")
        one = V(E, E.const(1)); y2 = y * y; u = E.unit((y2 - one).t, "u"); v = E.unit((y2 * cv.d - one * cv.a).t, "v")
        m.uv = (next(iter(u))[0][0], next(iter(v))[0][0]); m.ku = (u, v)
        m.sign = c.atom("sign", 0, 1); nw = f.nbytes // 8
        if canonical: ws = m.ser_words(f, y.t)
        else:
            kw = m.ser_words(f, y.t); ws = []; tot = pconst(f.p)      # the string holds p + canonical(y)
            for i, w in enumerate(kw): tot = padd(tot, pscale(w.p, 1 << 64 * i))
            raw = [c.fresh("s%d" % i, 64) for i in range(nw)]
            for i, w in enumerate(raw): tot = psub(tot, pscale(w.p, 1 << 64 * i))
            c.facts.append((tot, 0, 0, kw[0].p and max(x for mm in raw[0].p for x in mm)))
            ws = raw; m.raw = (padd({}, sumwords(raw)), y.t)
        z = {}
        for i, w in enumerate(m.ser_words(f, y.t)): z = padd(z, pscale(w.p, 1 << 64 * i))
        c.facts.append((z, 0, f.p - 1, next(iter(max(ws[0].p)))))
        for i, w in enumerate(ws):
            if n == 32 and i == 3: w = W(64, padd(w.p, {(m.sign.id,): 1 << 63}), 0, (1 << 64) - 1)
            s.cells[8 * i] = (w, 8)
        m.top = None
        if n == 57:
            m.top = c.atom("top", 0, 127); s.cells[56] = (W(8, {(m.top.id,): 1, (m.sign.id,): 128}, 0, 255), 1)
        K = KINDS[f.tag]; objs = [m.new("P4", K["xytz4"].size, "arg"), m.new("P2", K["xytz2"].size, "arg")]
        snap = dict(s.cells)
        r = m.call(fn, [Ptr(objs[0]) if which == 0 else 0, Ptr(objs[1]) if which == 1 else 0, Ptr(s)])
        pend += m.pending
        m.out = (K["xytz4"], K["xytz2"])[which], objs[which]; m.y = y; m.frame_ok = s.cells == snap
        yield m, r
def nonzero_facts(m, f):
    """facts about the canonical encodings of nonzero terms: 1 <= value <= p-1, and the encodings of t and -t add up to p"""
    c = m.c; E = m.fe[f.tag]; L = []
    for k, lst in m.sermemo[f.tag].items():
        for t, ws in lst:
            z = {}
            for i, w in enumerate(ws): z = padd(z, pscale(w.p, 1 << 64 * i))
            at = [x for mm in z for x in mm]
            if not at: continue
            isroot = True
            try: mono(m, E.intern(t))
            except Unsupported: isroot = False
            c.facts.append((z, 1 if isroot else 0, f.p - 1, max(at))); L.append((t, z, max(at)))
    for i, (t, z, a) in enumerate(L):
        for t2, z2, b in L[:i]:
            if E.eq(E.add(t, t2), {}): c.facts.append((padd(z, z2), f.p, f.p, max(a, b)))
def closure(c, at):
    """the atoms that the given ones are defined by"""
    at = set(at); work = list(at)
    while work:
        a = c.atoms[work.pop()]
        if a.kind in ("eq", "cond"): new = c.atoms_of(a.d)
        elif a.kind in ("or", "and"): new = set(x for w in a.d for x in c.atoms_of(w.p))
        else: continue
        for x in new - at: at.add(x); work.append(x)
    return at
def refuted(m, extra=None):
    """the path assumptions are contradictory"""
    import z3
    at = closure(m.c, set(m.c.assume) | (m.c.atoms_of(extra[0]) if extra else set()))
    return m.c.lia(at, lambda zp: (zp(extra[0]) == extra[1]) if extra else z3.BoolVal(True), mode="cone")
def classes(f):
    p = f.p
    if f is F255:
        q = (p - 1) // 4; i = pow(2, q, p)
        return [((q, (1, -1), e), sq) for e, sq in ((1, True), (p - 1, True), (i, False), (p - i, False))]
    q = (p - 1) // 2
    return [((q, (1, 1), e), sq) for e, sq in ((1, True), (p - 1, False))]

def verify_decoding(f, case, square, canonical, which):
    t0 = time.time(); p = f.p; cv = ECURVE[f.tag]
    nm = "%s[%s,%s,%s]" % (DEC[f.tag], "class %d" % [c[0] for c in classes(f)].index(case), "canonical" if canonical else "non-canonical", ("4w", "2w")[which])
    R_ = Result(nm); R_.need = {}; R_.insts = []; accepts = 0; k = 0
    for m, r in paths(f, case, canonical, which):
        E = m.fe[f.tag]; c = m.c; k += 1; pn = "path%d" % k
        for kk, b in m.need.items(): R_.need[kk] = b if kk not in R_.need else [max(a, q) for a, q in zip(b, R_.need[kk])]
        for q in m.results():
            if not any(q is o for o in R_.insts): R_.insts.append(q)
        nonzero_facts(m, f)
        if not m.frame_ok: R_.bad("frame:string", "the string is modified")
        ret = r if isinstance(r, int) else c.norm(r)
        zero = ret == 0 if isinstance(ret, int) else None if ret.lo == 0 else False
        if zero is None: R_.bad("return:" + pn, "the return value is not determined"); continue
        valid = square and canonical
        if zero is False:
            # rejected: the string must be invalid
            t1 = time.time()
            if not valid: R_.ok("reject:" + pn, "class of (y^2-1)/(d*y^2-a)" if canonical else "y >= p"); continue
            if m.top is not None and not refuted(m, ({(m.top.id,): 1}, 0)): R_.bad("reject:" + pn, "a string that encodes a point is rejected"); continue
            if m.top is None and not refuted(m): R_.bad("reject:" + pn, "a string that encodes a point is rejected"); continue
            R_.ok("reject:%s infeasible" % pn, "z3 linear integer arithmetic", time.time() - t1); continue
        t1 = time.time()
        if refuted(m): R_.ok("accept:%s infeasible" % pn, "z3 linear integer arithmetic", time.time() - t1); continue
        if not valid: R_.bad("accept:" + pn, "a string that encodes no point is accepted (%s)" % ("y >= p" if not canonical else "no point has this y")); continue
        if m.top is not None:
            a0 = c.lia(closure(c, set(c.assume) | {m.top.id}), lambda zp: zp({(m.top.id,): 1}) >= 1, mode="cone")
            if not a0: R_.bad("accept:%s.top" % pn, "a string with nonzero bits 448 to 454 is accepted"); continue
            R_.ok("accept:%s.top bits" % pn, "z3 linear integer arithmetic")
        accepts += 1
        # the output
        kd, o = m.out; pt = kd.pts[0]; out = {}
        for cc, (off, rep, lane) in pt.items():
            ds, t = m.read(f, rep, Ptr(o, off), lane); out[cc] = V(E, t)
            for i, d in enumerate(ds):
                if d.hi <= maxb(rep)[i]: R_.ok("bound:%s.%s[%d]" % (pn, cc, i), "interval arithmetic")
                else: R_.bad("bound:%s.%s[%d]" % (pn, cc, i), "digit may reach %#x" % d.hi)
        # find the root: a monomial with a known encoding
        roots = []
        for lst in m.sermemo[f.tag].values():
            for t, ws in lst:
                try: mono(m, E.intern(t))
                except Unsupported: continue
                roots.append((t, ws))
        y = m.y; done = False
        for t, ws in roots:
            U, Vv = m.ku
            try:
                if not same(m, f, E.raw_mul(Vv, E.raw_pow(t, 2)), U): continue
            except Unsupported: continue
            for sg in (1, -1):
                x = V(E, E.scale(t, sg))
                if f is F255: ex, dx, ey, dy = x, V(E, E.const(1)), y, V(E, E.const(1))
                else:
                    a, b = x * x, y * y; ex, dx, ey, dy = x * y * 2, b - a, b + a, V(E, E.const(2)) - b - a
                ok = E.eq((out["X"] * dx).t, (ex * out["Z"]).t) and E.eq((out["Y"] * dy).t, (ey * out["Z"]).t) and E.eq((out["T"] * out["Z"]).t, (out["X"] * out["Y"]).t)
                zz = E.eq(out["Z"].t, (dx * dy).t) if f is F448 else E.eq(out["Z"].t, E.const(1))
                if not ok or not zz: continue
                done = True
                R_.ok("root:%s v*x^2=u" % pn, "exponent arithmetic"); R_.ok("point:" + pn, "field term identity", time.time() - t1)
                # out is (x,y) with x = sg*t; it must be minus the point with the requested sign: parity(-x) = sign
                z = {}
                for i, w in enumerate(ws): z = padd(z, pscale(w.p, 1 << 64 * i))
                b = parity_of(c, ws[0]).p        # parity of t; parity of -t is 1-b
                want = {(m.sign.id,): 1}
                par = psub(pconst(1), b) if sg == 1 else b
                bad = c.atom("bad%d" % len(c.atoms), 0, 1)
                c.facts.append((psub(padd(par, want), padd(pscale(c.pmul(par, want), 0), {(bad.id,): 1})), 0, 2, bad.id))
                # refute par = 0, sign = 1 and par = 1, sign = 0
                okp = all(contradiction(m, par, want, v1) for v1 in (0, 1))
                if okp: R_.ok("sign:" + pn, "z3 linear integer arithmetic", time.time() - t1)
                else: R_.bad("sign:" + pn, "the sign of x is not that of the string")
                break
            if done: break
        if not done: R_.bad("point:" + pn, "the output is not minus the point with ordinate y: X=%s" % E.show(out["X"].t, 3))
    if square and canonical and not accepts: R_.bad("accept", "no string is accepted")
    R_.ok("paths:%d" % k, "symbolic execution of every path")
    R_.wall = time.time() - t0
    return R_
def contradiction(m, par, want, v):
    import z3
    c = m.c; at = closure(c, set(c.assume) | c.atoms_of(par) | c.atoms_of(want))
    return c.lia(at, lambda zp: z3.And(zp(par) == v, zp(want) == 1 - v), mode="cone")

def reference(cv, s):
    p = cv.f.p; n = int.from_bytes(s, "little"); t = 8 * len(s) - 1; y = n & (1 << t) - 1; sg = n >> t
    if y >= p: return None
    x2 = (y * y - 1) * pow(cv.d * y * y - cv.a, p - 2, p) % p
    x = x2 and _sqrt(x2, p)
    if x is None or x == 0 and sg: return None
    return (x if x & 1 == sg else p - x, y)
def _sqrt(a, p):
    if p % 4 == 3: r = pow(a, (p + 1) // 4, p)
    else:
        r = pow(a, (p + 3) // 8, p)
        if r * r % p != a: r = r * pow(2, (p - 1) // 4, p) % p
    return r if r * r % p == a else None
def verify_strings(f, ys, label):
    """concrete execution of finitely many strings"""
    t0 = time.time(); cv = ECURVE[f.tag]; n = NSTR[f.tag]; R_ = Result("%s[%s]" % (DEC[f.tag], label)); K = KINDS[f.tag]["xytz4"]; p = f.p
    for y in ys:
        for sg in (0, 1):
            s = (y | sg << 8 * n - 1).to_bytes(n, "little"); m = Machine(module()); o = m.new("P4", K.size, "arg"); b = m.new("string", n, "arg")
            for i, x in enumerate(s): b.cells[i] = (x, 1)
            r = m.call(DEC[f.tag], [Ptr(o), 0, Ptr(b)]); ref = reference(cv, s); nm = "string:%s.sign%d" % (hex(y)[:10] + ".." + hex(y)[-6:], sg)
            if ref is None:
                if r != 0: R_.ok(nm + " rejected", "concrete execution")
                else: R_.bad(nm, "a string that encodes no point is accepted: %s" % s.hex())
                continue
            if r != 0: R_.bad(nm, "a string that encodes a point is rejected: %s" % s.hex()); continue
            v = {c: sum(m.load_int(Ptr(o, off + rep.off(lane, i)), 8) << w for i, w in enumerate(rep.weights)) % p for c, (off, rep, lane) in K.pts[0].items()}
            P = (-ref[0] % p, ref[1])
            if f is F448: P = phi448(P)
            if v["Z"] and (v["X"] - P[0] * v["Z"]) % p == 0 and (v["Y"] - P[1] * v["Z"]) % p == 0 and (v["T"] * v["Z"] - v["X"] * v["Y"]) % p == 0: R_.ok(nm, "concrete execution")
            else: R_.bad(nm, "decodes to another point: %s" % s.hex())
    R_.wall = time.time() - t0
    return R_
def tasks(f):
    p = f.p; T = [(verify_encoding, (f,))]
    for case, sq in classes(f):
        T.append((verify_decoding, (f, case, sq, True, 0)))
        if f is F448: T.append((verify_decoding, (f, case, sq, False, 0)))
    T.append((verify_decoding, (f, classes(f)[0][0], True, True, 1)))
    ys = [1, p - 1]
    T.append((verify_strings, (f, ys, "y^2 = 1")))
    if f is F255:
        for i in range(0, 19, 5): T.append((verify_strings, (f, [p + k for k in range(i, min(19, i + 5))], "y >= p")))
    return T
def facts(f):
    r = Result("facts " + f.name); p = f.p; r.wall = 0
    cv = ECURVE[f.tag]
    L = [("d*y^2-a has no root", pow(cv.a * pow(cv.d, p - 2, p) % p, (p - 1) // 2, p) == p - 1)]
    if f is F448: L += [("y^2-x^2 does not vanish on the curve: 1-d is a nonsquare", pow((1 - cv.d) % p, (p - 1) // 2, p) == p - 1),
                        ("2-x^2-y^2 does not vanish on the curve: d is a nonsquare", pow(cv.d, (p - 1) // 2, p) == p - 1)]
    for n, ok in L: (r.ok("fact:" + n, "closed computation") if ok else r.bad("fact:" + n, "does not hold"))
    return r

# ---------------------------------------------------------------- native trials
def replay(f, seconds=60):
    from . import ptreplay as pr, replay as rp
    fns = core_funcs()
    w = ""
    if ENC[f.tag] in fns: w += '__attribute__((visibility("default"))) void vfw_enc(void*a,void*p){%s(a,p);}\n' % ENC[f.tag]
    if DEC[f.tag] in fns: w += '__attribute__((visibility("default"))) int vfw_dec(void*p,void*q,void*a){return %s(p,q,a);}\n' % DEC[f.tag]
    so = pr.unit_library("codec" + f.tag, w); cv = ECURVE[f.tag]; p = f.p; n = NSTR[f.tag]
    def run(report):
        lib = ctypes.CDLL(so); rng = random.Random(17); t0 = time.time(); pool = []; K = KINDS[f.tag]; cnt = 0
        while time.time() - t0 < seconds:
            cnt += 1
            if ENC[f.tag] in fns:
                kd = K["xytz2"]; pt = kd.pts[0]
                if rng.random() < 0.2:      # a small x or y
                    x = rng.randrange(1, 200); P = None
                    y = _sqrt((1 - cv.a * x * x) * pow(1 - cv.d * x * x, p - 2, p) % p, p)
                    if y is not None: P = (x if rng.random() < .5 else p - x, y)
                else: P = None
                if P is None: P, dd = pr.gen(rng, cv, pt, pool)
                else:
                    z = rng.choice([1, rng.randrange(1, p)]); dd = {k: pr.spread(rng, f, pt[k][1], v % p, maxb(pt[k][1])) for k, v in dict(X=P[0] * z, Y=P[1] * z, Z=z, T=P[0] * P[1] * z).items()}
                b = rp.Buf(kd.size); raw = bytearray(kd.size); e = rp.Buf(n)
                for c, (off, rep, lane) in pt.items():
                    for q, d in enumerate(dd[c]): o = off + rep.off(lane, q); raw[o:o + 8] = d.to_bytes(8, "little")
                b.set(raw); rec = dict(function=ENC[f.tag], point=bytes(raw).hex()); report(rec); lib.vfw_enc(e.p, b.p)
                want = (P[1] | (P[0] & 1) << 8 * n - 1).to_bytes(n, "little")
                if e.get() != want: return dict(result="encodes %s, expected %s" % (e.get().hex(), want.hex()), **rec)
                if not (e.guards() and b.guards()): return dict(result="writes outside the output", **rec)
            if DEC[f.tag] in fns:
                m = rng.randrange(6)
                if m == 0: y = rng.choice([0, 1, 2, p - 1, p - 2, p, p + 1, p + 2, p + rng.randrange(19)])
                elif m == 1: y = rng.randrange(p)
                elif m == 2:
                    x = rng.randrange(200); y = _sqrt((1 - cv.a * x * x) * pow(1 - cv.d * x * x, p - 2, p) % p, p) or 1
                    if rng.random() < .5: y = p - y
                elif m == 3: y = rng.randrange(64)
                elif m == 4 and f is F448: y = p + rng.choice([rng.randrange(100), rng.randrange(1 << 224)]) if rng.random() < .5 else rng.randrange(p) | 1 << rng.randrange(448, 455)
                else: y = cv.mul(rng.randrange(1, 1 << 20), cv.B)[1]
                s = (y % (1 << 8 * n - 1) | rng.randrange(2) << 8 * n - 1).to_bytes(n, "little"); ref = reference(cv, s)
                k = rng.choice(["xytz4", "xytz2"]); kd = K[k]; b = rp.Buf(kd.size); a = rp.Buf(n); a.set(s)
                rec = dict(function=DEC[f.tag], string=s.hex(), layout=k); report(rec)
                r = lib.vfw_dec(b.p if k == "xytz4" else None, b.p if k == "xytz2" else None, a.p)
                if not (a.guards() and b.guards()): return dict(result="writes outside the output", **rec)
                if a.get() != s: return dict(result="the string is modified", **rec)
                if ref is None and r == 0: return dict(result="accepted, but it encodes no point", **rec)
                if ref is not None and r != 0: return dict(result="rejected, but it encodes a point", **rec)
                if ref is not None:
                    raw = b.get(); v = {c: pr.dval(rep, [int.from_bytes(raw[off + rep.off(lane, q):][:8], "little") for q in range(rep.n)]) % p for c, (off, rep, lane) in kd.pts[0].items()}
                    P = (-ref[0] % p, ref[1])
                    if f is F448: P = phi448(P)
                    if not v["Z"] or (v["X"] - P[0] * v["Z"]) % p or (v["Y"] - P[1] * v["Z"]) % p or (v["T"] * v["Z"] - v["X"] * v["Y"]) % p: return dict(result="the point is not minus the decoded one", **rec)
        return None
    return rp.in_child(run, timeout=seconds + 60)
def core_funcs():
    from . import core
    return core.module().funcs
