"""Field-element terms: polynomials over GF(p) in abstract field elements and booleans.

Products of sums become named atoms (their definition is kept); every atom carries its value on K random
assignments, which only serves to *find* candidate equalities.  An equality is used only after it has been
proved by expanding definitions (an identity of polynomials over GF(p), booleans idempotent)."""
import random
from .ir import Unsupported

class FE:
    def __init__(s, p, K=12, seed=7):
        s.p, s.K = p, K
        s.names = []; s.kind = []; s.d = []; s.smp = []
        s.rng = random.Random(seed)
        s.prod = {}          # canonical polynomial -> atom id
        s.bysmp = {}         # samples -> representative polynomials (lists)
        s.proved = 0; s.identities = 0; s.failed = 0
        s.limit = 60000
        s.units = set()      # atoms known to be nonzero: exponents modulo p-1
        s.opaque = {}        # normalised polynomial -> atom standing for it
    # ---- atoms
    def _new(s, name, kind, d, smp):
        s.names.append(name); s.kind.append(kind); s.d.append(d); s.smp.append(smp)
        return len(s.names) - 1
    def var(s, name): return {((s._new(name, "var", None, [s.rng.randrange(s.p) for _ in range(s.K)]), 1),): 1}
    def bool(s, name): return s._new(name, "bool", None, [s.rng.randrange(2) for _ in range(s.K)])
    def const(s, k):
        k %= s.p
        return {(): k} if k else {}
    # ---- ring operations
    def add(s, a, b):
        if len(a) < len(b): a, b = b, a
        r = dict(a); p = s.p
        for m, c in b.items():
            x = (r.get(m, 0) + c) % p
            if x: r[m] = x
            else: r.pop(m, None)
        return r
    def scale(s, a, k):
        k %= s.p
        if k == 1: return a
        return {m: c * k % s.p for m, c in a.items()} if k else {}
    def sub(s, a, b): return s.add(a, s.scale(b, -1))
    def mmul(s, a, b):
        if not a: return b
        if not b: return a
        r = dict(a); kd = s.kind
        for i, e in b:
            if i in r:
                r[i] = 1 if kd[i] == "bool" else r[i] + e
                if i in s.units:
                    r[i] %= s.p - 1
                    if not r[i]: del r[i]
            else: r[i] = e
        return tuple(sorted(r.items()))
    def raw_mul(s, a, b):
        if len(a) * len(b) > s.limit: raise Unsupported("field term too large")
        r = {}; p = s.p; mm = s.mmul
        for m, c in a.items():
            for n, d in b.items():
                k = mm(m, n); x = (r.get(k, 0) + c * d) % p
                if x: r[k] = x
                else: r.pop(k, None)
        return r
    def raw_pow(s, a, e):
        r = {(): 1}
        if len(a) == 1:
            (m, c), = a.items()
            if not e: return r
            ex = [(i, 1 if s.kind[i] == "bool" else x * e % (s.p - 1) if i in s.units else x * e) for i, x in m]
            return {tuple((i, x) for i, x in ex if x): pow(c, e, s.p)}
        while e:
            if e & 1: r = s.raw_mul(r, a)
            e >>= 1
            if e: a = s.raw_mul(a, a)
        return r
    def ev(s, a):
        p = s.p; out = [0] * s.K
        for m, c in a.items():
            if not m:
                for k in range(s.K): out[k] += c
                continue
            if len(m) == 1 and m[0][1] == 1:
                sm = s.smp[m[0][0]]
                for k in range(s.K): out[k] += c * sm[k]
                continue
            for k in range(s.K):
                t = c
                for i, e in m:
                    v = s.smp[i][k]
                    t = t * (v if e == 1 else pow(v, e, p)) % p
                    if not t: break
                out[k] += t
        return tuple(x % p for x in out)
    def deg(s, a):
        """degree in field elements (booleans do not count)"""
        return max((sum(e for i, e in m if s.kind[i] != "bool") for m in a), default=0)
    def isbool(s, i): return s.kind[i] == "bool"
    # ---- polynomials that are kept as one nonzero atom
    def unit(s, P, name):
        m = min(P); k = P[m]; q = s.scale(P, pow(k, -1, s.p))
        a = s._new(name, "var", None, [x for x in s.ev(q)]); s.units.add(a); s.opaque[frozenset(q.items())] = a
        return {((a, 1),): k}
    def intern(s, P):
        if not s.opaque or not P: return P
        m = min(P); k = P[m]
        a = s.opaque.get(frozenset((P if k == 1 else s.scale(P, pow(k, -1, s.p))).items()))
        return P if a is None else {((a, 1),): k}
    # ---- named products
    def mul(s, a, b):
        if not a or not b: return {}
        a, b = s.intern(a), s.intern(b)
        P = s.raw_mul(a, b)
        return s.named(P)
    def named(s, P):
        if s.deg(P) <= 1: return P
        sm = s.ev(P)
        for R in s.bysmp.get(sm, ()):
            if R == P or s.zero(s.sub(R, P)):
                return R
        if len(P) == 1: R = P
        else: R = s.atom_for(P, sm)
        s.bysmp.setdefault(sm, []).append(R)
        return R
    def atom_for(s, P, sm=None, kind="prod", name=None):
        k = frozenset(P.items())
        a = s.prod.get(k)
        if a is None:
            a = s.prod[k] = s._new(name or "q%d" % len(s.names), kind, P, list(sm or s.ev(P)))
        return {((a, 1),): 1}
    def name(s, P):
        """one atom for the value of P (so that it can be raised to large powers)"""
        if len(P) <= 1: return P
        if s.deg(P) > 1: return s.named(P)
        sm = s.ev(P)
        for R in s.bysmp.get(("n", sm), ()):
            if s.zero(s.sub(R, P)): return R
        R = s.atom_for(P, sm)
        s.bysmp.setdefault(("n", sm), []).append(R)
        return R
    def pow(s, a, e):
        if not a: return {}
        a = s.intern(a)
        a = s.name(a)
        return s.named(s.raw_pow(a, e)) if len(a) == 1 else Unsupported
    # ---- equality
    def unfold(s, P, a):
        """replace atom a by its definition"""
        parts = {}
        for m, c in P.items():
            e = 0; l = []
            for i, x in m:
                if i == a: e = x
                else: l.append((i, x))
            parts.setdefault(e, {})[tuple(l)] = c
        r = parts.pop(0, {})
        d = s.d[a]; pw = {(): 1}; le = 0
        for e in sorted(parts):
            if e > 6 and len(d) > 1: raise Unsupported("power of a sum")
            pw = s.raw_mul(pw, s.raw_pow(d, e - le)); le = e
            r = s.add(r, s.raw_mul(pw, parts[e]))
            if len(r) > s.limit: raise Unsupported("field term too large")
        return r
    def zero(s, D):
        """prove D = 0 by expansion, newest definitions first"""
        if not D: return True
        if any(s.ev(D)): return False
        s.identities += 1
        try:
            while D:
                ds = [i for m in D for i, _ in m if s.kind[i] == "prod"]
                if not ds: break
                D = s.unfold(D, max(ds))
        except Unsupported: pass
        if not D: s.proved += 1; return True
        s.failed += 1
        return False
    def eq(s, a, b): return a == b or s.zero(s.sub(a, b))
    def show(s, P, lim=8):
        return " + ".join("%d%s" % (c if c < s.p // 2 else c - s.p, "".join("*%s%s" % (s.names[i], "^%d" % e if e > 1 else "") for i, e in m)) for m, c in sorted(P.items())[:lim]) + (" + ..(%d terms)" % len(P) if len(P) > lim else "") or "0"

class V:
    """field value with operators (contract expressions and reference algorithms)"""
    __slots__ = ("f", "t")
    def __init__(s, f, t): s.f, s.t = f, t
    def _o(s, o): return o.t if isinstance(o, V) else s.f.const(o)
    def __add__(s, o): return V(s.f, s.f.add(s.t, s._o(o)))
    __radd__ = __add__
    def __sub__(s, o): return V(s.f, s.f.sub(s.t, s._o(o)))
    def __rsub__(s, o): return V(s.f, s.f.sub(s._o(o), s.t))
    def __mul__(s, o):
        if isinstance(o, int): return V(s.f, s.f.scale(s.t, o))
        return V(s.f, s.f.mul(s.t, o.t))
    __rmul__ = __mul__
    def __neg__(s): return V(s.f, s.f.scale(s.t, -1))
    def __pow__(s, e): return V(s.f, s.f.pow(s.t, e))
    def inv(s): return V(s.f, s.f.pow(s.t, s.f.p - 2))
