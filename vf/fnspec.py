"""Function contracts on field operations and the discharge of their obligations."""
import time, math, z3
from .core import *
from .fld import *

class Poly:
    """ring element used by contract expressions (symbolic side)"""
    __slots__ = ("c", "p")
    def __init__(s, c, p): s.c, s.p = c, p
    def _o(s, o): return o.p if isinstance(o, Poly) else pconst(o)
    def __add__(s, o): return Poly(s.c, padd(s.p, s._o(o)))
    __radd__ = __add__
    def __sub__(s, o): return Poly(s.c, psub(s.p, s._o(o)))
    def __rsub__(s, o): return Poly(s.c, psub(s._o(o), s.p))
    def __mul__(s, o): return Poly(s.c, s.c.pmul(s.p, s._o(o)))
    __rmul__ = __mul__
    def __neg__(s): return Poly(s.c, pscale(s.p, -1))

class FnSpec:
    """args: list of (role, rep) with role in 'out','in','io','bit','vbit' ;
    post(ins) -> list over out/io args of lists of lane expressions; ins: list (per in/io arg) of lane lists"""
    def __init__(s, slot, fld, args, post, pre=None, bound=None, alias=True, exact=False, name=None, cut=0):
        s.cut = cut
        s.slot, s.f, s.args, s.post, s.pre, s.bound, s.exact = slot, fld, args, post, pre or {}, bound or {}, exact
        s.lpre = {}
        s.alias = alias; s.name = name or slot
        s.fname = None
    def aliases(s):
        """aliasing patterns: partitions of arguments of equal representation that the contract permits"""
        n = len(s.args); base = list(range(n)); out = [base]
        if not s.alias: return out
        if isinstance(s.alias, list): return s.alias
        ptr = [i for i in range(n) if s.args[i][0] in ("out", "in", "io")]
        def same(i, j): return s.args[i][1] is s.args[j][1]
        for i in ptr:
            for j in ptr:
                if j > i and same(i, j):
                    roles = {s.args[i][0], s.args[j][0]}
                    if roles in ({"out"}, {"io"}, {"out", "io"}): continue
                    a = list(base); a[j] = i; out.append(a)
        outs = [i for i in ptr if s.args[i][0] == "out"]
        ins = [i for i in ptr if s.args[i][0] == "in"]
        if len(outs) == 1 and len(ins) == 2 and same(outs[0], ins[0]) and same(outs[0], ins[1]):
            a = list(base); a[ins[0]] = a[ins[1]] = outs[0]; out.append(a)
        if len(outs) == 2 and len(ins) == 2 and all(same(outs[0], k) for k in outs + ins):
            a = list(base); a[ins[0]] = outs[0]; a[ins[1]] = outs[1]; out.append(a)
        if s.alias == "io" : return [x for x in out if x == base]
        return out

def prove(c, q, k):
    """q == k by linear arithmetic"""
    def one(f):
        at = c.atoms_of(q)
        return c.lia(at, f, timeout=10000, mode="cone", real=True) or c.lia(at, f, timeout=20000, mode="slice") or c.lia(at, f, timeout=20000, mode="cone")
    return one(lambda zp: zp(q) >= k + 1) and one(lambda zp: zp(q) <= k - 1)
def eliminate(c, r, p, res, name):
    """show that the residual polynomial r is 0 modulo p: wrap atoms are discharged by linear arithmetic,
    named words are unfolded when nothing else is left"""
    def red(r): return {m: k for m, k in ((m, v % p if p else v) for m, v in r.items()) if k}
    r = red(c.subst(r, c.assume)); t0 = time.time(); used = False; failed = set()
    def attempt(a, to):
        at = c.atoms[a]
        if to == 1000:
            if c.lia([a], lambda zp: zp({(a,): 1}) >= at.lo + 1, timeout=2000, mode="cone", real=True): return at.lo
            if at.hi - at.lo == 1 and c.lia([a], lambda zp: zp({(a,): 1}) <= at.hi - 1, timeout=2000, mode="cone", real=True): return at.hi
        if c.lia([a], lambda zp: zp({(a,): 1}) >= at.lo + 1, timeout=to, mode="slice"): return at.lo
        if c.lia([a], lambda zp: zp({(a,): 1}) <= at.hi - 1, timeout=to, mode="slice"): return at.hi
        if to >= 10000:
            if c.lia([a], lambda zp: zp({(a,): 1}) >= at.lo + 1, timeout=to, mode="cone"): return at.lo
            if c.lia([a], lambda zp: zp({(a,): 1}) <= at.hi - 1, timeout=to, mode="cone"): return at.hi
        return None
    while r:
        prog = False
        for to in (1000, 20000):
            for a in sorted(c.atoms_of(r), key=lambda a: (c.atoms[a].hi > 1, -a)):
                at = c.atoms[a]
                if at.kind not in ("wrap", "eq", "split") or (a, to) in failed: continue
                if to > 1000 and at.hi > 1: continue
                v = attempt(a, to); used = True
                if v is None: failed.add((a, to)); continue
                c.assume[a] = v; r = red(c.subst(r, {a: v})); prog = True; break
            if prog: break
            ds = [a for a in c.atoms_of(r) if c.atoms[a].kind == "def"]
            if ds:
                n0 = len(r)
                while ds:
                    r = red(c.subst(c.unfold(r, max(ds)), c.assume))
                    ds = [a for a in c.atoms_of(r) if c.atoms[a].kind == "def"]
                prog = True; break
        if not prog: break
    if r and p and len(r) <= 8 and math.gcd(next(iter(r.values())), p) == 1:
        # proportional to a small linear form: show that the form is zero
        iv = pow(next(iter(r.values())), -1, p)
        q = {m: (k * iv + p // 2) % p - p // 2 for m, k in r.items()}
        if max(abs(k) for k in q.values()) <= 64 and prove(c, q, 0): used = True; r = {}
    ats = sorted(c.atoms_of(r))
    if r and len(ats) <= 6 and all(c.atoms[a].hi - c.atoms[a].lo <= 2 for a in ats):
        # few small atoms: every combination either makes the residual vanish or contradicts the facts
        def cases(i, env):
            q = red(c.subst(r, env))
            if not q: return True
            if i:
                b = lambda zp: z3.And([zp({(a,): 1}) == v for a, v in env.items()])
                if c.lia(list(env), b, timeout=10000, mode="cone", real=True) or c.lia(list(env), b, timeout=20000, mode="cone"): return True
            if i == len(ats): return False
            return all(cases(i + 1, {**env, ats[i]: v}) for v in range(c.atoms[ats[i]].lo, c.atoms[ats[i]].hi + 1))
        if cases(0, {}): used = True; r = {}
    return r, ("z3 linear integer arithmetic" if used else "polynomial identity (exact)"), time.time() - t0

def verify(spec, al):
    """discharge all obligations of one function contract under one aliasing pattern"""
    mod = module()
    label = "%s%s" % (spec.name, "" if al == list(range(len(spec.args))) else "[alias %s]" % "".join(map(str, al)))
    R_ = Result(label)
    mc = Machine(mod); c = mc.c
    mc.cut = spec.cut
    p = spec.f.p
    t0 = time.time()
    objs = [None] * len(spec.args); vals = [None] * len(spec.args); call = []
    for i, (role, rep) in enumerate(spec.args):
        if role in ("bit", "vbit"):
            continue
        if al[i] != i: objs[i] = objs[al[i]]; continue
        objs[i] = mc.new("arg%d" % i, rep.size, "arg")
    # inputs
    for i, (role, rep) in enumerate(spec.args):
        if role == "bit":
            b = c.atom("bit", 0, 1); vals[i] = [{(b.id,): 1}]; call.append(W(32, {(b.id,): 1}, 0, 1)); continue
        if role == "vbit":
            bs = [c.atom("bit%d" % l, 0, 1) for l in range(rep.lanes)]
            vals[i] = [{(b.id,): 1} for b in bs]
            per = 4 // rep.lanes
            # a lane mask as cmp/sgn return it: all ones or zero in each 64-bit element of the lane
            full = (1 << 64) - 1
            call.append(tuple(W(64, {(bs[k // per].id,): full}, 0, full) for k in range(4))); continue
        call.append(Ptr(objs[i], 0))
        if role in ("in", "io") or any(al[j] == i and spec.args[j][0] in ("in", "io") for j in range(len(al))):
            if al[i] == i:
                # the strongest precondition among the arguments that share the object
                pres = [spec.lpre.get(j, spec.pre.get(j)) for j in range(len(al)) if al[j] == i and spec.args[j][0] in ("in", "io")]
                b = None
                for q in pres:
                    if q is not None: b = q if b is None else [[min(x, y) for x, y in zip(u, v)] for u, v in zip(b, q)] if isinstance(q[0], list) else [min(x, y) for x, y in zip(b, q)]
                vals[i] = put(mc, rep, objs[i], "abcdef"[i], b)
            else: vals[i] = vals[al[i]]
        elif al[i] != i: vals[i] = vals[al[i]]
    for i in range(len(al)):
        if spec.args[i][0] in ("in", "io") and vals[i] is None: vals[i] = vals[al[i]]
    before = {id(o): dict(o.cells) for o in objs if o is not None}
    ret = mc.call(spec.fname, call)
    tsym = time.time() - t0
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    if mc.asm_checks: R_.ok("asm-constraints:%d blocks" % mc.asm_checks, "declared outputs and clobbers", 0.0)
    ins = [[Poly(c, v) for v in vals[i]] for i, (role, rep) in enumerate(spec.args) if role != "out"]
    exp = spec.post(*ins)
    outs = [i for i, (role, rep) in enumerate(spec.args) if role in ("out", "io")]
    R_.outb = {}; R_.loutb = {}
    for k, i in enumerate(outs):
        rep = spec.args[i][1]; R_.loutb[i] = []
        R_.outb[i] = list(spec.bound[i]) if spec.bound.get(i) else [0] * rep.n
        for l in range(rep.lanes):
            ds = digits(mc, rep, objs[i], l)
            nm = "arg%d.lane%d" % (i, l)
            if any(isinstance(d, Undef) for d in ds):
                R_.bad("value:" + nm, "output digit %s left unwritten or undefined" % [j for j, d in enumerate(ds) if isinstance(d, Undef)]); continue
            v = value(mc, rep, ds)
            e = exp[k][l]; e = e.p if isinstance(e, Poly) else pconst(e)
            r = psub(v, e)
            kind = "value" if spec.exact else "congruence"
            r, be, t = eliminate(c, r, 0 if spec.exact else p, R_, nm)
            if r: R_.bad("%s:%s" % (kind, nm), "residual%s not shown to vanish: %s" % ("" if spec.exact else " modulo p", c.show(r)))
            else: R_.ok("%s:%s" % (kind, nm), be, t + tsym / max(1, rep.lanes))
            b = spec.bound.get(i)
            R_.loutb[i].append([c.norm(c.tow(d, 64)).hi for d in ds] if b is None else list(b))
            if b is None:
                R_.outb[i] = [max(x, c.norm(c.tow(d, 64)).hi) for x, d in zip(R_.outb[i], ds)]
            else:
                for j, d in enumerate(ds):
                    d = c.norm(c.tow(d, 64))
                    t1 = time.time()
                    if d.hi <= b[j]: R_.ok("bound:%s[%d]" % (nm, j), "interval arithmetic")
                    elif c.prove_le(d.p, b[j]): R_.ok("bound:%s[%d]" % (nm, j), "z3 linear integer arithmetic", time.time() - t1)
                    else: R_.bad("bound:%s[%d]" % (nm, j), "digit may reach %#x, contract bound %#x" % (d.hi, b[j]))
    # frame
    for i, (role, rep) in enumerate(spec.args):
        if role != "in" or any(al[j] == al[i] and spec.args[j][0] in ("out", "io") for j in range(len(al))): continue
        o = objs[i]; ok = True
        for off, (w, n) in before[id(o)].items():
            x = mc.load_int(Ptr(o, off), n)
            if x is not w and not (isinstance(x, W) and isinstance(w, W) and x.p == w.p) and x != w: ok = False
        if ok: R_.ok("frame:arg%d unchanged" % i, "store log")
        else: R_.bad("frame:arg%d" % i, "the input operand is modified")
    R_.log = dict(called=list(mc.called), accesses=mc.access_checks)
    return R_
