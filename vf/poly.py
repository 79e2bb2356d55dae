"""Integer-polynomial value domain and the linear-integer-arithmetic back end.

A machine word of w bits is  W(w, p, lo, hi): its value is congruent to the integer polynomial p
(over atoms, exact integers) modulo 2^w, and lo <= p <= hi holds.  When the exact value is needed
(shift, mask, compare, widening) the word is normalised: either the bounds show 0 <= p < 2^w, or a
new wrap atom k is introduced with value p - 2^w*k.  Atoms are non-negative integers with bounds.
Every introduction of an atom is recorded as a fact; facts are what the LIA back end (z3) may use.
"""
import z3, time
from .ir import Unsupported

class Atom:
    __slots__ = ("id", "name", "lo", "hi", "bool", "kind", "d")
    def __init__(s, id, name, lo, hi, kind, d):
        s.id, s.name, s.lo, s.hi, s.kind, s.d = id, name, lo, hi, kind, d
        s.bool = lo == 0 and hi == 1
    def __repr__(s): return s.name

class W:
    __slots__ = ("w", "p", "lo", "hi")
    def __init__(s, w, p, lo, hi): s.w, s.p, s.lo, s.hi = w, p, lo, hi
    def __repr__(s): return "W%d[%d..%d]" % (s.w, s.lo, s.hi)

class Undef:
    __slots__ = ()
    def __repr__(s): return "undef"
UNDEF = Undef()

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) - c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: c * k for m, c in a.items()}
def pconst(k): return {(): k} if k else {}
def key(p): return frozenset(p.items())

class Ctx:
    def __init__(s):
        s.atoms = []
        s.cache = {}
        s.facts = []          # (poly, lo, hi, tag)
        s.zfacts = []         # ("eq", atom, D) / ...
        s.known = {}          # words met: key of the polynomial -> range
        s.assume = {}         # atom id -> value (path assumptions and proved-zero atoms)
        s.stats = dict(lia_queries=0, lia_time=0.0, lia_unsat=0)
        s.lia_timeout = 60000
        s.ndefs = 0
        s.slice_timeout = 20000

    # ---- atoms
    def atom(s, name, lo, hi, kind="in", d=None):
        a = Atom(len(s.atoms), name, lo, hi, kind, d)
        s.atoms.append(a)
        return a
    def var(s, a, w): return W(w, {(a.id,): 1}, a.lo, a.hi)
    def fresh(s, name, w, lo=0, hi=None):
        if hi is None: hi = (1 << w) - 1
        return s.var(s.atom(name, lo, hi), w)

    def define(s, x):
        """name an exact word: a fresh atom equal to its polynomial (a cut for the back ends)"""
        x = s.norm(x)
        ck = ("def", key(x.p))
        a = s.cache.get(ck)
        if a is None:
            a = s.cache[ck] = s.atom("d%d" % len(s.atoms), x.lo, x.hi, "def", x.p)
            s.ndefs += 1
        return W(x.w, {(a.id,): 1}, x.lo, x.hi)
    def expand(s, p, red=None):
        """replace defined atoms by their definitions, newest first"""
        while s.ndefs:
            ds = [a for a in s.atoms_of(p) if s.atoms[a].kind == "def"]
            if not ds: break
            p = s.unfold(p, max(ds))
            if red: p = red(p)
        return p
    def unfold(s, p, a):
        q = {}; rest = {}
        for m, c in p.items():
            if a in m:
                l = list(m); l.remove(a); q[tuple(l)] = c
            else: rest[m] = c
        r = s.pmul(q, s.atoms[a].d)
        if any(a in m for m in r): r = s.unfold(r, a)
        return padd(rest, r)

    # ---- polynomials
    def mmul(s, a, b):
        if not a: return b
        if not b: return a
        m = sorted(a + b)
        r = []
        at = s.atoms
        for x in m:
            if r and r[-1] == x and at[x].bool: continue
            r.append(x)
        return tuple(r)
    def pmul(s, a, b):
        if len(a) > len(b): a, b = b, a
        if not a: return {}
        if len(a) == 1 and () in a: return pscale(b, a[()])
        r = {}
        mm = s.mmul
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mm(m1, m2)
                x = r.get(m, 0) + c1 * c2
                if x: r[m] = x
                else: r.pop(m, None)
        return r
    def mbounds(s, m):
        lo = hi = 1
        for x in m:
            a = s.atoms[x]; lo *= a.lo; hi *= a.hi
        return lo, hi
    def pbounds(s, p):
        lo = hi = 0
        for m, c in p.items():
            l, h = s.mbounds(m)
            if c > 0: lo += c * l; hi += c * h
            else: lo += c * h; hi += c * l
        return lo, hi
    def subst(s, p, env):
        """substitute atoms by integers"""
        r = {}
        for m, c in p.items():
            nm = []
            for x in m:
                if x in env: c *= env[x]
                else: nm.append(x)
            if c:
                nm = tuple(nm)
                v = r.get(nm, 0) + c
                if v: r[nm] = v
                else: r.pop(nm, None)
        return r
    def show(s, p, lim=12):
        out = []
        for m, c in sorted(p.items())[:lim]:
            out.append("%s%s" % (hexs(c), "".join("*" + s.atoms[x].name for x in m)))
        return " + ".join(out) + (" + ...(%d terms)" % len(p) if len(p) > lim else "") or "0"

    # ---- words
    def const(s, k, w):
        k &= (1 << w) - 1
        return W(w, pconst(k), k, k)
    def tow(s, x, w):
        if isinstance(x, W): return x if x.w == w else s.trunc_or_ext(x, w)
        if isinstance(x, int): return s.const(x, w)
        raise Unsupported("cannot use %r as a %d-bit word" % (x, w))
    def trunc_or_ext(s, x, w):
        if x.w > w: return W(w, x.p, x.lo, x.hi)
        x = s.norm(x); return W(w, x.p, x.lo, x.hi)

    def norm(s, x):
        """exact form: bounds within [0,2^w)"""
        M = 1 << x.w
        if 0 <= x.lo and x.hi < M: return x
        lo, hi = s.pbounds(x.p)
        lo = max(lo, x.lo); hi = min(hi, x.hi)
        if 0 <= lo and hi < M: return W(x.w, x.p, lo, hi)
        k = lo >> x.w
        if k == hi >> x.w:
            return W(x.w, padd(x.p, pconst(-M * k)), lo - M * k, hi - M * k)
        ck = ("norm", x.w, key(x.p))
        r = s.cache.get(ck)
        if r is not None: return r
        r = s._norm(x, lo, hi, M)
        s.known[key(r.p)] = (r.lo, r.hi)
        s.cache[ck] = r
        return r
    def _norm(s, x, lo, hi, M):
        h = M >> 1
        # pull out multiples of 2^w
        for bal in (True, False):
            q = {}
            for m, c in x.p.items():
                c %= M
                if bal and c > h: c -= M
                if c: q[m] = c
            l2, h2 = s.pbounds(q)
            if l2 >> x.w == h2 >> x.w:
                k = l2 >> x.w
                if k: q = padd(q, pconst(-M * k))
                return W(x.w, q, l2 - M * k, h2 - M * k)
        # only booleans
        ats = set(i for m in x.p for i in m)
        if len(ats) <= 5 and all(s.atoms[i].bool for i in ats):
            return s.multilinear(sorted(ats), lambda env: list(s.subst(x.p, env).values() or [0])[0] % M, x.w)
        # a left shift: 2^t*q mod 2^w = 2^t*(q mod 2^(w-t))
        t = s.low_zero_bits(x.p)
        if 0 < t < x.w:
            q = {m: c >> t for m, c in x.p.items()}
            ql, qh = s.pbounds(q)
            if ql >= 0:
                lowp, _ = s._split(q, ql, qh, x.w - t)
                return W(x.w, pscale(lowp, 1 << t), 0, min(qh, (1 << (x.w - t)) - 1) << t)
        # simplify coefficients that exceed 2^w
        q = {}
        for m, c in x.p.items():
            c %= M
            if c > h: c -= M
            if c: q[m] = c
        if q != x.p:
            l2, h2 = s.pbounds(q)
            if (h2 >> x.w) - (l2 >> x.w) < (hi >> x.w) - (lo >> x.w):
                return s.norm(W(x.w, q, l2, h2))
        if q != x.p and all(c >= 0 for c in q.values()) and ("split", x.w, key(q)) in s.cache:
            lowp, hp = s.cache["split", x.w, key(q)]
            for m in hp:
                for a in m: s.facts.append((x.p, lo, hi, a)); break
                break
            return W(x.w, lowp, 0, M - 1)
        if lo >= 0 and all(c >= 0 for c in x.p.values()):
            lowp, _ = s._split(x.p, lo, hi, x.w)
            return W(x.w, lowp, 0, M - 1)
        # value = q' - 2^w k
        kl, kh = lo >> x.w, hi >> x.w
        a = s.atom("k%d" % len(s.atoms), 0, kh - kl, "wrap", (x.p, x.w))
        p = dict(x.p); p = padd(p, pconst(-M * kl)) if kl else p
        p = padd(p, {(a.id,): -M})
        s.facts.append((p, 0, M - 1, a.id))
        return W(x.w, p, 0, M - 1)
    def multilinear(s, ats, f, w):
        p = {}
        n = len(ats); vals = {}
        for b in range(1 << n):
            vals[b] = f({ats[i]: (b >> i) & 1 for i in range(n)})
        # Moebius
        co = dict(vals)
        for i in range(n):
            for b in range(1 << n):
                if b >> i & 1: co[b] -= co[b ^ (1 << i)]
        for b in range(1 << n):
            if co[b]: p[tuple(ats[i] for i in range(n) if b >> i & 1)] = co[b]
        return W(w, p, min(vals.values()), max(vals.values()))

    def add(s, x, y, w):
        x = s.tow(x, w); y = s.tow(y, w)
        return W(w, padd(x.p, y.p), x.lo + y.lo, x.hi + y.hi)
    def sub(s, x, y, w):
        x = s.tow(x, w); y = s.tow(y, w)
        return W(w, psub(x.p, y.p), x.lo - y.hi, x.hi - y.lo)
    def mul(s, x, y, w):
        x = s.tow(x, w); y = s.tow(y, w)
        if not (0 <= x.lo and x.hi < 1 << w) and len(x.p) < 3: x = s.norm(x)
        c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
        r = W(w, s.pmul(x.p, y.p), min(c), max(c))
        return r
    def split(s, x, n):
        """exact word x (normalised) -> (low n bits as W, high as W), both of width x.w"""
        x = s.norm(x)
        w = x.w
        if n == 0: return W(w, {}, 0, 0), x
        if x.hi < 1 << n: return x, W(w, {}, 0, 0)
        if x.lo == x.hi:
            return W(w, pconst(x.lo & ((1 << n) - 1)), x.lo & ((1 << n) - 1), x.lo & ((1 << n) - 1)), \
                   W(w, pconst(x.lo >> n), x.lo >> n, x.lo >> n)
        lowp, highp = s._split(x.p, x.lo, x.hi, n)
        hl, hh = x.lo >> n, x.hi >> n
        return (W(w, lowp, 0, min(x.hi, (1 << n) - 1)), W(w, highp, hl, hh))
    def _split(s, p, lo, hi, n):
        ck = ("split", n, key(p))
        r = s.cache.get(ck)
        if r is not None: return r
        M = 1 << n
        # exact decomposition by coefficients
        q = {}; rr = {}
        for m, c in p.items():
            c0 = c % M
            if c0: q[m] = c0
            if c - c0: rr[m] = (c - c0) >> n
        ql, qh = s.pbounds(q)
        if 0 <= ql and qh < M: r = (q, rr)
        else:
            r = None
            t = min(s.low_zero_bits(p), n - 1)
            if t > 0:
                l2, h2 = s._split({m: c >> t for m, c in p.items()}, lo >> t, hi >> t, n - t)
                s.cache[ck] = (pscale(l2, 1 << t), h2)
                return s.cache[ck]
            # p = q + 2^t*r with 0 <= q < 2^t, t <= n: floor(p/2^n) = floor(r/2^(n-t))
            for t in sorted(set((c & -c).bit_length() - 1 for c in p.values()), reverse=True):
                if not 0 < t <= n: continue
                qq = {m: c for m, c in p.items() if c % (1 << t)}
                if not qq or len(qq) == len(p): continue
                a, b = s.pbounds(qq)
                if a < 0 or b >= 1 << t: continue
                r2 = {m: c >> t for m, c in p.items() if m not in qq}
                if t == n: r = (qq, r2); break
                a2, b2 = s.pbounds(r2)
                l2, h2 = s._split(r2, max(a2, lo - b >> t), min(b2, hi >> t), n - t)
                r = (padd(qq, pscale(l2, 1 << t)), h2); break
            if r is not None:
                s.cache[ck] = r; return r
            # a previously split quantity: p = q0 - 2^s0 * H
            for m, c in p.items():
                if len(m) == 1 and s.atoms[m[0]].kind == "split":
                    p0, s0, l0, h0 = s.atoms[m[0]].d
                    if s0 >= n and c == -(1 << s0) and padd(p, {m: 1 << s0}) == p0:
                        lo0, hi0 = s._split(p0, l0, h0, n)
                        highp = padd(hi0, {m: -(1 << (s0 - n))})
                        r = (psub(p, pscale(highp, M)), highp)
                        break
            if r is None and (len(p) == 1 or len(p) == 2 and () in p and p[()] > 0):
                # floor((k + floor(p0 / 2^s0)) / 2^n) = floor((p0 + k*2^s0) / 2^(s0+n))
                m = next(x for x in p if x); c = p[m]; k = p.get((), 0)
                if c == 1 and len(m) == 1 and s.atoms[m[0]].kind == "split":
                    p0, s0, l0, h0 = s.atoms[m[0]].d
                    k <<= s0
                    lo0, hi0 = s._split(padd(p0, pconst(k)), l0 + k, h0 + k, s0 + n)
                    r = (psub(p, pscale(hi0, M)), hi0)
            if r is None:
                ats = set(i for m in p for i in m)
                if len(ats) <= 4 and all(s.atoms[i].bool for i in ats):
                    hw = s.multilinear(sorted(ats), lambda env: list(s.subst(p, env).values() or [0])[0] >> n, 64)
                    r = (psub(p, pscale(hw.p, M)), hw.p)
            if r is None and rr and not (len(q) == 1 and () in q):
                # p = q + M*rr, floor(p/M) = rr + floor(q/M)
                if all(s.atoms[i].lo >= 0 for m in q for i in m):
                    l2, h2 = s._split(q, ql, qh, n)
                    r = (l2, padd(rr, h2))
            if r is None:
                a = s.atom("h%d" % len(s.atoms), max(lo, 0) >> n, hi >> n, "split", (p, n, lo, hi))
                lowp = padd(p, {(a.id,): -M})
                s.facts.append((lowp, 0, M - 1, a.id))
                r = (lowp, {(a.id,): 1})
        s.cache[ck] = r
        return r

    def lshr(s, x, n, w):
        x = s.tow(x, w)
        if n >= w: return s.const(0, w)
        return s.split(x, n)[1]
    def shl(s, x, n, w):
        x = s.tow(x, w)
        if n >= w: return s.const(0, w)
        return W(w, pscale(x.p, 1 << n), x.lo << n, x.hi << n)
    def ashr(s, x, n, w):
        x = s.norm(s.tow(x, w))
        sg = s.split(x, w - 1)[1]
        if sg.lo == sg.hi == 0: return s.split(x, n)[1]
        h = s.split(x, n)[1]
        n = min(n, w - 1)
        # floor(x/2^n) + sign*(2^w - 2^(w-n))
        return s.bool_bounds(W(w, padd(h.p, pscale(sg.p, (1 << w) - (1 << (w - n)))), 0, (1 << w) - 1))
    def bool_bounds(s, x): return x
    def land(s, x, y, w):
        if isinstance(x, int): x, y = y, x
        if isinstance(y, W) and y.lo == y.hi: y = y.lo & ((1 << w) - 1)
        if isinstance(y, int):
            if y == 0: return s.const(0, w)
            if y == (1 << w) - 1: return s.tow(x, w)
            x = s.norm(s.tow(x, w))
            res = None; i = 0
            while y >> i:
                if not (y >> i) & 1: i += 1; continue
                j = i
                while (y >> j) & 1: j += 1
                if x.hi >> i == 0: break
                h = s.split(x, i)[1]
                l = s.split(h, j - i)[0]
                t = W(w, pscale(l.p, 1 << i), l.lo << i, l.hi << i)
                res = t if res is None else s.add(res, t, w)
                i = j
            return res if res is not None else s.const(0, w)
        return s.bitop("and", x, y, w)
    def lor(s, x, y, w):
        if isinstance(x, int): x, y = y, x
        if isinstance(y, int):
            if y == 0: return s.tow(x, w)
            if y == (1 << w) - 1: return s.const(y, w)
            x = s.tow(x, w)
            return s.add(s.sub(x, s.land(x, y, w), w), y, w)
        return s.bitop("or", x, y, w)
    def lxor(s, x, y, w):
        if isinstance(x, int): x, y = y, x
        if isinstance(y, int):
            if y == 0: return s.tow(x, w)
            x = s.tow(x, w)
            if y == (1 << w) - 1: return s.sub(s.const(y, w), s.norm(x), w)
            # x ^ c = x + c - 2 (x & c)
            x = s.norm(x)
            return s.sub(s.add(x, y, w), s.shl(s.land(x, y, w), 1, w + 1), w) if False else \
                   s._xorc(x, y, w)
        return s.bitop("xor", x, y, w)
    def _xorc(s, x, c, w):
        a = s.land(x, c, w)
        a = s.tow(a, w)
        return W(w, padd(psub(x.p, pscale(a.p, 2)), pconst(c)), 0, (1 << w) - 1)

    def low_zero_bits(s, p):
        z = 10**9
        for c in p.values(): z = min(z, (c & -c).bit_length() - 1)
        return z
    def bools_of(s, p):
        return set(i for m in p for i in m if s.atoms[i].bool)
    def bitop(s, op, x, y, w):
        x = s.norm(s.tow(x, w)); y = s.norm(s.tow(y, w))
        M = (1 << w) - 1
        if key(x.p) == key(y.p): return x if op != "xor" else s.const(0, w)
        for a, b in ((x, y), (y, x)):
            if a.lo == a.hi:
                return {"and": s.land, "or": s.lor, "xor": s.lxor}[op](b, a.lo, w)
        if op in ("or", "xor"):
            for a, b in ((x, y), (y, x)):
                if a.hi < 1 << min(s.low_zero_bits(b.p), w):
                    return W(w, padd(a.p, b.p), a.lo + b.lo, a.hi + b.hi)
        elif x.hi < 1 << min(s.low_zero_bits(y.p), w) or y.hi < 1 << min(s.low_zero_bits(x.p), w):
            return s.const(0, w)
        # case split over booleans
        bs = sorted(s.bools_of(x.p) | s.bools_of(y.p))
        bs = [b for b in bs if s.split_worthy(b, x.p, y.p)]
        if bs and len(bs) <= s.maxsplit:
            b = bs[0]; vals = []
            for v in (0, 1):
                xp = s.subst(x.p, {b: v}); yp = s.subst(y.p, {b: v})
                xl, xh = s.pbounds(xp); yl, yh = s.pbounds(yp)
                xx = W(w, xp, max(xl, x.lo), min(xh, x.hi)); yy = W(w, yp, max(yl, y.lo), min(yh, y.hi))
                vals.append(s.norm(s.tow(s.bitop(op, xx, yy, w), w)))
            d = s.pmul({(b,): 1}, psub(vals[1].p, vals[0].p))
            return W(w, padd(vals[0].p, d), min(vals[0].lo, vals[1].lo), max(vals[0].hi, vals[1].hi))
        if x.hi <= 1 and y.hi <= 1:
            pr = s.pmul(x.p, y.p)
            if op == "and": return W(w, pr, 0, 1)
            if op == "or": return W(w, psub(padd(x.p, y.p), pr), 0, 1)
            return W(w, psub(padd(x.p, y.p), pscale(pr, 2)), 0, 1)
        return s.opaque(op, x, y, w)
    maxsplit = 6
    lra_first = True
    def split_worthy(s, b, xp, yp):
        return True
    def opaque(s, op, x, y, w):
        if op == "xor":
            def xs(v):
                if len(v.p) == 1:
                    (m, c), = v.p.items()
                    if c == 1 and len(m) == 1 and s.atoms[m[0]].kind == "xor": return s.atoms[m[0]].d
                return frozenset([(key(v.p), v.lo, v.hi)])
            def strip(fs): return {k: (k, l, h) for k, l, h in fs}
            A, B = strip(xs(x)), strip(xs(y))
            d = [A[k] for k in A if k not in B] + [B[k] for k in B if k not in A]
            if not d: return s.const(0, w)
            if len(d) == 1:
                k, l, h = d[0]; return W(w, dict(k), l, h)
            fs = frozenset(d)
            ck = ("xor", w, fs)
            if ck not in s.cache:
                hb = max(h.bit_length() for _, _, h in d)
                s.cache[ck] = s.atom("x%d" % len(s.atoms), 0, (1 << hb) - 1, "xor", fs)
            a = s.cache[ck]
            return W(w, {(a.id,): 1}, a.lo, a.hi)
        ck = (op, w, frozenset([key(x.p), key(y.p)]))
        if ck not in s.cache:
            hi = min(x.hi, y.hi) if op == "and" else (1 << max(x.hi.bit_length(), y.hi.bit_length())) - 1
            a = s.atom("%s%d" % (op, len(s.atoms)), 0, hi, op, (x, y))
            s.cache[ck] = a
            # and + or = x + y ; and <= min
            if op == "and":
                s.facts.append((psub(x.p, {(a.id,): 1}), 0, x.hi, a.id))
                s.facts.append((psub(y.p, {(a.id,): 1}), 0, y.hi, a.id))
            else:
                s.facts.append((psub({(a.id,): 1}, x.p), 0, hi, a.id))
                s.facts.append((psub({(a.id,): 1}, y.p), 0, hi, a.id))
        a = s.cache[ck]
        return W(w, {(a.id,): 1}, a.lo, a.hi)

    # ---- comparisons: give a 1-bit W or an int
    def borrow(s, x, y, w):
        """(x - y) mod 2^w and the borrow as 1-bit W/int"""
        x = s.norm(s.tow(x, w)); y = s.norm(s.tow(y, w))
        d = W(w, psub(x.p, y.p), x.lo - y.hi, x.hi - y.lo)
        z = s.norm(d)
        return z, s.quot(psub(z.p, d.p), w)
    def quot(s, p, w):
        """p is a multiple of 2^w: the quotient as W"""
        q = {}
        for m, c in p.items():
            if c % (1 << w): raise Unsupported("internal: quotient not exact")
            q[m] = c >> w
        if not q: return 0
        if len(q) == 1 and () in q: return q[()]
        lo, hi = s.pbounds(q)
        return W(64, q, max(lo, 0), min(hi, 1))
    def carry(s, full, w):
        """full: unnormalised W -> (normalised, carry out)"""
        z = s.norm(full)
        return z, s.quot(psub(full.p, z.p), w)
    def b1(s, x):
        if isinstance(x, W): return W(1, x.p, x.lo, x.hi)
        return x & 1
    def ult(s, x, y, w):
        x = s.norm(s.tow(x, w)); y = s.norm(s.tow(y, w))
        if x.hi < y.lo: return 1
        if x.lo >= y.hi: return 0
        # x = (y + z) mod 2^w with 0 <= z < 2^w: the comparison is the carry of that sum
        d = psub(x.p, y.p)
        for m, k in d.items():
            if k == -(1 << w) and len(m) == 1 and s.atoms[m[0]].bool:
                z = dict(d); del z[m]; lo, hi = s.pbounds(z)
                if lo < 0 or hi >> w: lo, hi = s.known.get(key(z), (lo, hi))
                if lo >= 0 and not hi >> w: return W(1, {m: 1}, 0, 1)
        return s.b1(s.borrow(x, y, w)[1])
    def eq(s, x, y, w):
        x = s.norm(s.tow(x, w)); y = s.norm(s.tow(y, w))
        if x.hi < y.lo or y.hi < x.lo: return 0
        d = psub(x.p, y.p)
        if not d: return 1
        lo, hi = s.pbounds(d)
        if lo > 0 or hi < 0: return 0
        if lo == hi: return int(lo == 0)
        # one boolean only
        ats = set(i for m in d for i in m)
        if len(ats) <= 4 and all(s.atoms[i].bool for i in ats):
            r = s.multilinear(sorted(ats), lambda env: int(not s.subst(d, env)), 1)
            return r if r.p else 0
        if min(d.values()) < 0 and max(d.values()) <= 0 or d[max(d)] < 0: d = pscale(d, -1)
        ck = ("eq", key(d))
        if ck not in s.cache:
            a = s.atom("e%d" % len(s.atoms), 0, 1, "eq", d)
            s.zfacts.append(("eq", a.id, d))
            s.cache[ck] = a
        return s.var(s.cache[ck], 1)
    def sgn_bias(s, x, w):
        x = s.tow(x, w)
        return s.norm(W(w, padd(x.p, pconst(1 << (w - 1))), x.lo + (1 << (w - 1)), x.hi + (1 << (w - 1))))
    def icmp(s, pred, x, y, w):
        if pred == "eq": return s.eq(x, y, w)
        if pred == "ne": return s.lnot(s.eq(x, y, w))
        if pred[0] == "s":
            x = s.sgn_bias(x, w); y = s.sgn_bias(y, w); pred = "u" + pred[1:]
        if pred == "ult": return s.ult(x, y, w)
        if pred == "ugt": return s.ult(y, x, w)
        if pred == "uge": return s.lnot(s.ult(x, y, w))
        if pred == "ule": return s.lnot(s.ult(y, x, w))
        raise Unsupported(pred)
    def lnot(s, b):
        if isinstance(b, int): return 1 - b
        return W(1, psub(pconst(1), b.p), 1 - b.hi, 1 - b.lo)
    def select(s, c, x, y, w):
        if isinstance(c, int): return x if c & 1 else y
        x = s.norm(s.tow(x, w)); y = s.norm(s.tow(y, w))
        if x.p == y.p: return x
        c = s.norm(c)
        d = s.pmul(c.p, psub(x.p, y.p))
        r = W(w, padd(y.p, d), min(x.lo, y.lo), max(x.hi, y.hi))
        return r
    def sext(s, x, w0, w1):
        x = s.norm(s.tow(x, w0))
        sg = s.split(x, w0 - 1)[1]
        if x.lo >> w0 - 1: k = (1 << w1) - (1 << w0); return W(w1, padd(x.p, pconst(k)), x.lo + k, x.hi + k)
        return W(w1, padd(x.p, pscale(sg.p, (1 << w1) - (1 << w0))), 0, (1 << w1) - 1) if not (sg.lo == sg.hi == 0) else W(w1, x.p, x.lo, x.hi)
    def concat(s, parts):
        """parts: list of (word, width) little end first"""
        w = sum(b for _, b in parts); o = 0; p = {}; lo = hi = 0
        for v, b in parts:
            v = s.norm(s.tow(v, b))
            p = padd(p, pscale(v.p, 1 << o)); lo += v.lo << o; hi += v.hi << o
            o += b
        return W(w, p, lo, hi)
    def extract(s, x, o, b):
        """bits [o,o+b) as a b-bit word"""
        h = s.split(x, o)[1] if o else s.norm(x)
        l = s.split(h, b)[0] if h.hi >> b else h
        return W(b, l.p, l.lo, l.hi)

    # ---- LIA back end
    def facts_of(s, a): return [f for f in s.facts if any(a in m for m in f[0])]
    def lia(s, hyp_atoms, build, extra=(), timeout=None, maxfacts=4000, mode=None, real=False):
        """backward slice of the defining facts first, then the whole cone of influence"""
        if mode is None:
            to = timeout or s.lia_timeout
            if s.lra_first:
                if s.lia(hyp_atoms, build, extra, min(to, 5000), maxfacts, "cone", True): return True
            if s.lia(hyp_atoms, build, extra, min(to, s.slice_timeout), maxfacts, "slice"): return True
            if s.last_facts == len(s.facts) and not s.ndefs: return False
            return s.lia(hyp_atoms, build, extra, to, maxfacts, "cone")
        """try to refute `build(zvar)` under the recorded facts; True if unsat."""
        t0 = time.time()
        env = s.assume
        sol = z3.SolverFor("QF_LIA") if False else z3.Solver()
        sol.set("timeout", timeout or s.lia_timeout)
        mv = {}
        def zm(m):
            v = mv.get(m)
            if v is None:
                if not m: return 1
                v = (z3.Real if real else z3.Int)("m" + "_".join(map(str, m)))
                mv[m] = v
                lo, hi = s.mbounds(m)
                sol.add(v >= lo, v <= hi)
                if len(m) > 1:
                    bs = [x for x in m if s.atoms[x].bool]
                    if bs:
                        b = bs[0]; rest = tuple(x for x in m if x != b)
                        vb = zm((b,)); vr = zm(rest); rl, rh = s.mbounds(rest)
                        sol.add(v <= vb * rh, v <= vr, v >= vr - (1 - vb) * rh)
                    else:
                        for x in set(m):
                            rest = list(m); rest.remove(x); rest = tuple(rest)
                            if rest in mv or len(rest) == 1:
                                xl, xh = s.atoms[x].lo, s.atoms[x].hi
                                sol.add(v <= zm(rest) * xh)
            return v
        def zp(p):
            p = s.subst(p, env) if env else p
            return z3.Sum([c * zm(m) if m else (z3.RealVal(c) if real else z3.IntVal(c)) for m, c in p.items()]) if p else (z3.RealVal(0) if real else z3.IntVal(0))
        # cone of influence
        need = set(hyp_atoms); used = set(); allf = s.facts; chosen = []
        byatom = {}
        for i, (p, lo, hi, aid) in enumerate(allf):
            for m in p:
                for x in m: byatom.setdefault(x, []).append(i)
        work = list(need) if mode != "local" else []
        if mode == "local":       # the facts about these atoms alone
            for i, (p, lo, hi, aid) in enumerate(allf):
                if all(x in need for m in p for x in m): chosen.append(i)
        while work and len(chosen) < maxfacts:
            a = work.pop()
            if a in env: continue
            if mode == "cone" and s.atoms[a].kind == "def":
                for m in s.atoms[a].d:
                    for x in m:
                        if x not in need: need.add(x); work.append(x)
            for i in byatom.get(a, ()):
                if i in used: continue
                if mode == "slice" and allf[i][3] != a: continue
                used.add(i); chosen.append(i)
                for m in allf[i][0]:
                    for x in m:
                        if x not in need: need.add(x); work.append(x)
        s.last_facts = len(chosen)
        for i in chosen:
            p, lo, hi, aid = allf[i]
            e = zp(p); sol.add(e >= lo, e <= hi)
        if mode == "cone":
            done = set()
            while True:
                todo = [x for x in need if s.atoms[x].kind == "def" and x not in done]
                if not todo: break
                for x in todo:
                    done.add(x); e = zp(s.atoms[x].d); sol.add(zm((x,)) == e)
                    for m in s.atoms[x].d:
                        for y in m: need.add(y)
        for k in s.zfacts:
            if k[0] == "eq" and (k[1] in need or any(x in need for m in k[2] for x in m)):
                e = zm((k[1],)) if k[1] not in env else env[k[1]]
                d = zp(k[2])
                if isinstance(e, int):
                    sol.add(d == 0 if e else d != 0)
                else: sol.add(z3.If(e == 1, d == 0, z3.Or(d >= 1, d <= -1)))
        for c in extra: sol.add(c(zp))
        sol.add(build(zp))
        r = sol.check()
        if real and r == z3.sat: r = s.probe(sol, mv, t0 + (timeout or 5000) / 1000)
        s.stats["lia_queries"] += 1; s.stats["lia_time"] += time.time() - t0
        if r == z3.unsat: s.stats["lia_unsat"] += 1
        s.last_model = None
        if r == z3.sat and not real:
            md = sol.model(); s.last_model = {m: md.eval(v, model_completion=True).as_long() for m, v in mv.items()}
        s.last_result = str(r)
        return r == z3.unsat
    def probe(s, sol, mv, end):
        """the linear relaxation has a solution: fix small integers one at a time, keeping what is refuted"""
        dom = {m: list(range(s.atoms[m[0]].lo, s.atoms[m[0]].hi + 1)) for m in mv if len(m) == 1 and s.atoms[m[0]].hi - s.atoms[m[0]].lo in (1, 2)}
        while True:
            prog = False
            for m in sorted(dom, reverse=True):
                if len(dom[m]) == 1: continue
                keep = []
                for v in dom[m]:
                    if time.time() > end: return z3.unknown
                    sol.push(); sol.add(mv[m] == v)
                    if sol.check() != z3.unsat: keep.append(v)
                    sol.pop()
                if not keep: return z3.unsat
                if keep != dom[m]:
                    dom[m] = keep; prog = True; sol.add(mv[m] >= keep[0], mv[m] <= keep[-1])
            if not prog: return z3.sat
    def atoms_of(s, p): return set(x for m in p for x in m)
    def prove_le(s, p, hi, timeout=None):
        if s.pbounds(p)[1] <= hi: return True
        return s.lia(s.atoms_of(p), lambda zp: zp(p) >= hi + 1, timeout=timeout)
    def prove_ge(s, p, lo, timeout=None):
        if s.pbounds(p)[0] >= lo: return True
        return s.lia(s.atoms_of(p), lambda zp: zp(p) <= lo - 1, timeout=timeout)

def hexs(c):
    a = abs(c)
    for k in (1,):
        pass
    t = a & -a if a else 0
    e = t.bit_length() - 1
    o = a >> e if a else 0
    r = ("%d" % o if o < 10**6 else hex(o)) + ("*2^%d" % e if e > 3 else "*%d" % (1 << e) if e > 0 else "")
    return ("-" if c < 0 else "") + r
