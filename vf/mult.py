"""Scalar multiplication (C11-C13, C09): the machine of the callers of point functions.

A point in memory is recognised by its coordinates: X = x*Z, Y = y*Z (and T = x*y*Z where the callee uses it) for a known
affine point (x,y) whose value in the group is a linear combination of base points with integer polynomials as
coefficients.  A call of a point function checks that its operands represent known points, takes the contract of points.py for
exactly the digit bounds of the call site (the instance is verified), and registers the result with the sum (double) of
the values.  Table queries are contracts as well: every entry, digit, sign and lane is verified by concrete execution of the
query with the other lanes undefined."""
import time, random, ctypes
from .core import *
from .fld import *
from .fe import V
from . import fm, fieldspecs, points
from .points import *

class Pt:
    __slots__ = ("x", "y", "val", "cv")
    def __init__(s, x, y, val, cv): s.x, s.y, s.val, s.cv = x, y, val, cv
def vadd(a, b, k=1):
    r = dict(a)
    for g, p in b.items():
        q = padd(r.get(g, {}), pscale(p, k))
        if q: r[g] = q
        else: r.pop(g, None)
    return r
def vscale(a, k): return {g: pscale(p, k) for g, p in a.items()}

# table queries: (function, field, lanes' base multipliers as function of index and lane, number of indices)
class Query:
    def __init__(s, fname, f, n, mult): s.fname, s.f, s.n, s.mult = fname, f, n, mult
QUERIES = [
    Query("query_table_fold2w4_ed25519", F255, 16, lambda i, l: 16 ** (2 * i + 32 * (l & 1))),
    Query("query_table_fold4w4_ed448", F448, 28, lambda i, l: 16 ** (4 * i)),
]
def digitbound(rep): return [(1 << b) - 1 for b in fieldspecs.digit_bits(rep)]
def query_bounds(f):
    rep = R[f.tag, "red4"]; b = digitbound(rep)
    return dict(add=b, sub=b, dt=[2 * x + 1 for x in b])

def verify_query(q, idx):
    """the contract of a table query for one table index: every lane, digit and sign; the digits and signs of the other lanes are undefined"""
    f = q.f; cv = curve_of(f); rep = R[f.tag, "red4"]; t0 = time.time(); R_ = Result("%s[index %d]" % (q.fname, idx)); K = KINDS[f.tag]["precmp4"]; B = query_bounds(f); bad = 0
    for l in range(4):
        base = cv.mul(q.mult(idx, l) % cv.l, cv.B); pts = [(0, 1)]
        for k in range(8): pts.append(cv.add(pts[-1], base))
        ok = 0
        for k in range(9):
            for sg in (0, 1):
                mc = Machine(module()); P = mc.new("P", K.size, "arg"); S = mc.new("S", 32, "arg"); D = mc.new("K", 32, "arg")
                for j in range(4):
                    if j == l: D.cells[8 * j] = (k, 8); S.cells[8 * j] = ((1 << 64) - 1 if sg else 0, 8)
                sn = dict(D.cells), dict(S.cells)
                try: mc.call(q.fname, [Ptr(P), Ptr(S), Ptr(D), idx])
                except Violation as e: R_.bad("query:index%d.lane%d.%d" % (idx, l, k), e.msg); return R_
                x, y = pts[k] if not sg else cv.neg(pts[k]); p = f.p
                want = dict(add=(y + x) % p, sub=(y - x) % p, dt=2 * cv.d * x % p * y % p)
                good = (dict(D.cells), dict(S.cells)) == sn; why = "the digits or signs are modified"
                for c, (off, rp_, lane) in K.pts[l].items():
                    ds = [mc.load_int(Ptr(P, off + rp_.off(lane, i)), 8) for i in range(rp_.n)]
                    if not all(isinstance(d, int) for d in ds): good = False; why = "the result depends on another lane or is undefined"; break
                    if any(d > b for d, b in zip(ds, B[c])): good = False; why = "digit of %s out of bounds" % c; break
                    if (sum(d << w for d, w in zip(ds, rp_.weights)) - want[c]) % p: good = False; why = "%s is not that of %s%d times the base multiple" % (c, "-" if sg else "", k); break
                if good: ok += 1
                else:
                    R_.bad("query:index%d.lane%d.%s%d" % (idx, l, "-" if sg else "+", k), why); bad += 1
                    if bad > 3: R_.wall = time.time() - t0; return R_
        if ok: R_.ok("query:index%d.lane%d: %d digits" % (idx, l, ok), "concrete execution, other lanes undefined", time.time() - t0)
    R_.wall = time.time() - t0
    return R_

class PM(fm.FM):
    """fm.FM plus contracts of point functions and table queries"""
    tight_int = True
    def __init__(s, mod, flds, use=None):
        super().__init__(mod, flds, use)
        s.known = []; s.used_q = set()
        for sp in SPECS:
            if sp.f in flds and sp.fname in mod.funcs: s.contracts[sp.fname] = (lambda m, a, sp=sp: m.h_point(sp, a))
        for q in QUERIES:
            if q.f in flds and q.fname in mod.funcs: s.contracts[q.fname] = (lambda m, a, q=q: m.h_query(q, a))
    # ------------------------------------------------------------ points
    def newpt(s, cv, val, nm="P"):
        f = cv.f; P = Pt(s.fvar(f, "x%d" % len(s.known)), s.fvar(f, "y%d" % len(s.known)), val, cv); s.known.append(P)
        return P
    def read_point(s, f, o, pt, need):
        t = {}; b = {}
        for c, (off, rep, lane) in pt.items():
            if c not in need:
                try: ds, v = s.read(f, rep, Ptr(o.obj, o.off + off), lane)
                except Violation: b[c] = [(1 << 64) - 1] * rep.n; continue
            else: ds, v = s.read(f, rep, Ptr(o.obj, o.off + off), lane)
            t[c] = V(s.fe[f.tag], v); b[c] = [d.hi for d in ds]
        return t, b
    def identify(s, cv, t, need):
        """the known point that these coordinates represent"""
        E = s.fe[cv.f.tag]; one = V(E, E.const(1)); h = pow(2, cv.f.p - 2, cv.f.p)
        if "Z" in t: z = t["Z"]
        elif "z2" in t: z = t["z2"] * h
        else: z = one
        if not z.t: return None
        if "X" in t: X, Y = t["X"], t["Y"]
        else: X, Y = (t["add"] - t["sub"]) * h, (t["add"] + t["sub"]) * h
        nz = s.is_nonzero(E, z)
        if not nz: raise Unsupported("Z is not known to be nonzero at %s" % s.where())
        if not X.t and E.eq(Y.t, z.t):
            return Pt(V(E, {}), one, {}, cv) if s.tcheck(E, cv, t, V(E, {}), one, z, need) else None
        for P in reversed(s.known):
            if P.cv is not cv: continue
            if E.eq(X.t, (P.x * z).t) and E.eq(Y.t, (P.y * z).t) and s.tcheck(E, cv, t, P.x, P.y, z, need): return P
            if E.eq(X.t, (-P.x * z).t) and E.eq(Y.t, (P.y * z).t) and s.tcheck(E, cv, t, -P.x, P.y, z, need): return Pt(-P.x, P.y, vscale(P.val, -1), cv)
        return None
    def tcheck(s, E, cv, t, x, y, z, need):
        if "T" in t and "T" in need and not E.eq(t["T"].t, (x * y * z).t): return False
        if "dt" in t and not E.eq(t["dt"].t, (x * y * z * (2 * cv.d % cv.f.p)).t): return False
        return True
    def is_nonzero(s, E, z):
        """a nonzero constant times a product of denominators"""
        if len(z.t) != 1: return False
        (m, k), = z.t.items()
        return all(i in E.units for i, _ in m)
    def unit_var(s, f, nm):
        v = s.fvar(f, nm); s.fe[f.tag].units.add(var_of(v)); return v
    def h_point(s, sp, args):
        f = sp.f; cv = curve_of(f); K = KINDS[f.tag]; E = s.fe[f.tag]; n = len(sp.args); al = list(range(n)); ints = {}; pre = {}; vals = {}
        for i, (role, k) in enumerate(sp.args):
            if role == "int":
                if not isinstance(args[i], int): raise Unsupported("symbolic flag of %s at %s" % (sp.fname, s.where()))
                ints[i] = args[i]; continue
            if not isinstance(args[i], Ptr): raise Violation("memory", "argument %d of %s is not a pointer at %s" % (i, sp.fname, s.where()))
            s.check(args[i], K[k].size, "read" if role == "in" else "write")
            for j in range(i):
                if sp.args[j][0] == "int": continue
                if args[j] == args[i]: al[i] = al[j]; break
                if s.overlap(args[i], K[k].size, args[j], K[sp.args[j][1]].size): raise Unsupported("overlapping arguments of %s at %s" % (sp.fname, s.where()))
        need = {"X", "Y", "Z", "add", "sub", "dt", "z2"} | ({"T"} if sp.reads_T else set())
        for i in sp.ins:
            kd = K[sp.args[i][1]]; vals[i] = []; pre[i] = {}
            for pt in kd.pts:
                t, b = s.read_point(f, args[i], pt, need)
                for c, v in b.items(): pre[i][c] = [max(x, y) for x, y in zip(v, pre[i].get(c, v))]
                P = s.identify(cv, t, need)
                if P is None: raise Violation("precondition:" + sp.fname, "argument %d of %s does not represent a known point of the curve at %s" % (i, sp.fname, s.where()))
                vals[i].append(P)
        if any(al[i] != i for i in range(n)):
            if sp.fname not in ("_1way_fulladd_1w_full",): raise Unsupported("aliased arguments of %s at %s" % (sp.fname, s.where()))
        pre = {i: {c: [fm.round_up(max(x, y)) for x, y in zip(v, maxb(K[sp.args[i][1]].pts[0][c][1]))] for c, v in p.items()} for i, p in pre.items()}
        r = s.point_instance(sp, al, pre, ints)
        o = sp.out; kd = K[sp.args[o][1]]
        T_given = sp.op != "iso" and not any(v == 0 for v in ints.values())
        a, b = sp.ins[0], sp.ins[-1]
        for i, (role, k) in enumerate(sp.args):
            if role == "clob": s.havoc(args[i], K[k].size)
        for l, pt in enumerate(kd.pts):
            A, Bp = vals[a][l], vals[b][l]
            if sp.op == "iso": ncv, val = ED448, vscale(A.val, 4)      # every point of the image of the isogeny: the dual of the image of P is 4P
            elif sp.op == "dbl": ncv, val = cv, vscale(A.val, 2)
            else: ncv, val = cv, vadd(A.val, Bp.val)
            P = s.newpt(ncv, val); w = s.unit_var(f, "w%d" % len(s.known))
            for c, tm in coords(E, cv, pt, P.x, P.y, w).items():
                off, rep, lane = pt[c]
                if c == "T" and not T_given: tm = s.fvar(f, "junk%d" % len(s.known))
                bd = r.outb.get(c) or [(1 << 64) - 1] * rep.n
                s.write(f, rep, Ptr(args[o].obj, args[o].off + off), lane, tm.t, bd)
        return None
    def havoc(s, p, size):
        for i in range(0, size, 8): s.store_int(Ptr(p.obj, p.off + i), 8, W(64, {(s.c.atom("h%d" % len(s.c.atoms), 0, (1 << 64) - 1).id,): 1}, 0, (1 << 64) - 1))
    def point_instance(s, sp, al, pre, ints):
        k = ("point", sp.fname, tuple(al), tuple(sorted(ints.items())), str(sorted((i, sorted(p.items())) for i, p in pre.items())))
        r = fm._inst.get(k)
        if r is None:
            try: r = points.verify(sp, al, pre, ints)
            except Unsupported as e: r = Result(sp.fname); r.unsup.append(str(e))
            except Violation as e: r = Result(sp.fname); r.bad(e.ob, e.msg)
            r.al = al; r.ikey = k[3:]; r.slot = sp.fname
            fm._inst[k] = r
        s.insts[k] = r
        for kk, b in getattr(r, "need", {}).items(): s.need[kk] = b if kk not in s.need else [max(x, y) for x, y in zip(b, s.need[kk])]
        for q in getattr(r, "insts", []): s.insts[("sub", id(q))] = q
        if r.fail or r.unsup or not hasattr(r, "outb"): raise Violation("callee:" + sp.fname, "the contract of %s does not hold: %s" % (sp.fname, (r.fail or r.unsup)[:2]))
        return r
    # ------------------------------------------------------------ digits
    def signed_digit(s, k, sg):
        """(1-2*sigma)*k as a polynomial, where the word sg is -sigma; shows 0 <= k <= 8"""
        c = s.c; full = (1 << 64) - 1
        k = c.norm(c.tow(k, 64)); sg = c.norm(c.tow(sg, 64))
        sp_ = c.subst(sg.p, c.assume)
        if not sp_: sig = None
        elif len(sp_) == 1 and next(iter(sp_.values())) == full and len(next(iter(sp_))) == 1 and c.atoms[next(iter(sp_))[0]].bool: sig = next(iter(sp_))[0]
        elif list(sp_.items()) == [((), full)]: sig = True
        else: raise Violation("precondition:query", "a sign word is not 0 or -1 at %s" % s.where())
        free = sig not in (None, True)
        def case(v, guess=None):
            old = dict(c.assume)
            try:
                hyp = set()
                if free:
                    c.assume[sig] = v; hyp.add(sig)
                    for z in c.facts_of(sig): hyp |= set(x for m in z[0] for x in m)     # the comparison behind the sign
                def never(q, b):
                    h = c.atoms_of(q) | hyp
                    return c.lia(h, b, mode="local") or c.lia(h, b, mode="cone")
                def always(q): return never(q, lambda zp: zp(q) >= 1) and never(q, lambda zp: zp(q) <= -1)
                p = c.subst(k.p, c.assume)
                if guess is not None and always(psub(p, guess)): p = guess
                else:
                    for a in sorted(c.atoms_of(p)):
                        at = c.atoms[a]
                        if at.kind != "split": continue
                        lo, hi = c.pbounds(c.subst(at.d[0], c.assume))
                        for h in range(lo >> at.d[1], min(hi >> at.d[1], (lo >> at.d[1]) + 2) + 1):
                            if always({(a,): 1, (): -h}): p = c.subst(p, {a: h}); break
                lo, hi = c.pbounds(p)
                if (hi > 8 and not never(p, lambda zp: zp(p) >= 9)) or (lo < 0 and not never(p, lambda zp: zp(p) <= -1)):
                    raise Violation("precondition:query", "a digit is not shown to lie between 0 and 8 at %s" % s.where())
                return p
            finally:
                c.assume.clear(); c.assume.update(old)
        if sig is None: return case(0)
        if sig is True: return pscale(case(1), -1)
        d0 = case(0); d1 = case(1, psub(pconst(16), d0)); S = {(sig,): 1}
        if not padd(d0, padd(d1, pconst(-16))): return psub(d0, pscale(S, 16))
        return padd(d0, c.pmul(S, pscale(padd(d0, d1), -1)))
    def h_query(s, q, args):
        f = q.f; cv = curve_of(f); kd = KINDS[f.tag]["precmp4"]; E = s.fe[f.tag]
        P, S, D, idx = args
        s.check(P, kd.size, "write"); s.check(S, 32, "read"); s.check(D, 32, "read")
        if not isinstance(idx, int) or not 0 <= idx < q.n: raise Violation("precondition:query", "table index %s out of range at %s" % (idx, s.where()))
        s.used_q.add((q.fname, idx)); B = query_bounds(f)
        for l, pt in enumerate(kd.pts):
            k, sg = s.load_int(Ptr(D.obj, D.off + 8 * l), 8), s.load_int(Ptr(S.obj, S.off + 8 * l), 8)
            if isinstance(k, Undef) or isinstance(sg, Undef): raise Violation("uninitialised", "digit %d given to %s is uninitialised at %s" % (l, q.fname, s.where()))
            d = s.signed_digit(k, sg)
            A = s.newpt(cv, {"B": pscale(d, q.mult(idx, l))})
            for c, tm in coords(E, cv, pt, A.x, A.y, V(E, E.const(1))).items():
                off, rep, lane = pt[c]
                s.write(f, rep, Ptr(P.obj, P.off + off), lane, tm.t, B[c])
        return None
    def put_scalar(s, p, n, top):
        """bytes of a scalar below 2^top, as nibbles; returns its value"""
        v = {}
        for i in range(n):
            w = {}
            for j in (0, 1):
                m = min(15, (1 << max(0, top - 8 * i - 4 * j)) - 1)
                if not m: continue
                a = s.c.atom("n%d" % (2 * i + j), 0, m); w[(a.id,)] = 16 ** j; v[(a.id,)] = 16 ** (2 * i + j)
            p.obj.cells[p.off + i] = (W(8, w, 0, 255) if w else 0, 1)
        return v

FIXED = {"255": ("point_multiplication_ed25519", 32, 253), "448": ("point_multiplication_fold4w4", 57, 446)}
def verify_fixed(f):
    """[r]B for every scalar below 2^top"""
    fn, n, top = FIXED[f.tag]; t0 = time.time(); mc = PM(module(), [f]); R_ = Result(fn); R_.need = mc.need; R_.insts = []
    kd = KINDS[f.tag]["xytz2"]; P = mc.new("rB", kd.size, "arg"); r = mc.new("r", n, "arg"); v = mc.put_scalar(Ptr(r), n, top); snap = dict(r.cells)
    cv = ED25519 if f is F255 else ED448
    try: mc.call(fn, [Ptr(P), Ptr(r)])
    finally: R_.insts = mc.results()
    Tneed = {"X", "Y", "Z"} | ({"T"} if f is F255 else set())
    t, b = mc.read_point(f, Ptr(P), kd.pts[0], Tneed); A = mc.identify(cv, t, Tneed)
    if A is None: R_.bad("post:point", "the result is not a known point")
    else:
        k = 1 if f is F255 else 4
        d = psub(A.val.get("B", {}), pscale(v, k)) if set(A.val) <= {"B"} else None
        if d is None or d: R_.bad("post:multiple", "the result is not r times the base point%s: difference %s" % ("" if k == 1 else " (times 4)", mc.c.show(d) if d else A.val.keys()))
        else: R_.ok("post:multiple [r]B", "identity of integer polynomials (recoding) over the group", time.time() - t0)
        R_.ok("post:representation X=xZ, Y=yZ, Z nonzero", "field term identity")
    R_.pointb = b
    for c, bb in b.items():
        if c in Tneed and any(x > y for x, y in zip(bb, maxb(kd.pts[0][c][1]))): R_.bad("bound:" + c, "digits exceed the bounds of the next function")
    if r.cells == snap: R_.ok("frame:scalar unchanged", "store log")
    else: R_.bad("frame:scalar", "the scalar is modified")
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.used_q = sorted(mc.used_q); R_.wall = time.time() - t0
    return R_

def verify_fixed448():
    """fixed_point_multiplication_ed448: [r]B for every r, through the contract of div4 (4v = r modulo the order, v below the order)"""
    from . import scal
    f = F448; fn = "fixed_point_multiplication_ed448"; t0 = time.time(); mc = PM(module(), [f]); R_ = Result(fn); R_.need = mc.need; R_.insts = []
    kd = KINDS[f.tag]["xytz2"]; P = mc.new("rB", kd.size, "arg"); r = mc.new("r", 56, "arg"); rv = {}
    for i in range(56):
        a = mc.c.atom("r%d" % i, 0, 255); r.cells[i] = (W(8, {(a.id,): 1}, 0, 255), 1)
        rv[(a.id,)] = 1 << 8 * i
    snap = dict(r.cells); divs = []
    def h_div4(m, args):
        d, n = args; q = fm._inst.get("scal-div4")
        if q is None:
            try: q = scal.verify_div4()
            except Unsupported as e: q = Result("div4"); q.unsup.append(str(e))
            except Violation as e: q = Result("div4"); q.bad(e.ob, e.msg)
            q.ikey = "div4"; q.al = None; fm._inst["scal-div4"] = q
        m.insts["div4"] = q
        for x in q.insts: m.insts["div4", id(x)] = x
        m.check(d, 57, "write"); m.check(n, 56, "read")
        if m.overlap(d, 57, n, 56): raise Unsupported("overlapping arguments of div4")
        v = {}
        for i in range(56):
            x = m.load_int(Ptr(n.obj, n.off + i), 1)
            if isinstance(x, Undef): raise Violation("uninitialised", "byte %d given to div4 is uninitialised" % i)
            v = padd(v, pscale(m.c.norm(m.c.tow(x, 8)).p, 1 << 8 * i))
        divs.append((m.put_scalar(d, 57, 446), v))
    mc.contracts["div4"] = h_div4
    try: mc.call(fn, [Ptr(P), Ptr(r)])
    finally: R_.insts = mc.results()
    need = {"X", "Y", "Z"}; t, b = mc.read_point(f, Ptr(P), kd.pts[0], need); A = mc.identify(ED448, t, need)
    if A is None: R_.bad("post:point", "the result is not a known point")
    else:
        ok = set(A.val) <= {"B"} and any(not psub(A.val.get("B", {}), pscale(v, 4)) and not psub(n, rv) for v, n in divs)
        if ok: R_.ok("post:multiple [r]B", "identity of integer polynomials; 4v = r modulo the order by the contract of div4", time.time() - t0)
        else: R_.bad("post:multiple", "the result is not r times the base point")
        R_.ok("post:representation X=xZ, Y=yZ, Z nonzero", "field term identity")
    for c, bb in b.items():
        if c in need and any(x > y for x, y in zip(bb, maxb(kd.pts[0][c][1]))): R_.bad("bound:" + c, "digits exceed the bounds of the next function")
    if r.cells == snap: R_.ok("frame:scalar unchanged", "store log")
    else: R_.bad("frame:scalar", "the scalar is modified")
    R_.ok("memory-safety:%d accesses" % mc.access_checks, "bounds of every access (concrete addresses)", 0.0)
    R_.used_q = sorted(mc.used_q); R_.wall = time.time() - t0
    return R_

# ---------------------------------------------------------------- native trials
def edge_scalar(rng, nib, top):
    """scalars below 2^top with unusual nibbles"""
    m = rng.randrange(10)
    if m == 0: v = rng.choice([0, 1, 2, 7, 8, 9, 15, 16])
    elif m == 1: v = sum(rng.choice([0, 7, 8, 15]) << 4 * i for i in range(nib))
    elif m == 2: v = sum(rng.choice([7, 8]) << 4 * i for i in range(nib))
    elif m == 3: v = (1 << top) - 1 - rng.choice([0, 1, 8, 1 << rng.randrange(top)])
    elif m == 4: v = rng.randrange(1, 16) << 4 * rng.randrange(nib)
    elif m == 5: a = rng.randrange(nib); v = (1 << 4 * a) - rng.choice([0, 1, 8]) + (rng.randrange(16) << 4 * rng.randrange(nib))
    elif m == 6: v = ((1 << top) - 1) // 15 * rng.choice([7, 8, 1, 0])
    elif m == 7:
        d = rng.randrange(1, 16); v = sum(d << 4 * i for i in range(nib) if rng.random() < 0.8)
    else: v = rng.randrange(1 << top)
    return abs(v) % (1 << top)
def layout_point(pr, f, kd, l, raw):
    return {c: pr.dval(rep, [int.from_bytes(raw[off + rep.off(lane, q):][:8], "little") for q in range(rep.n)]) % f.p for c, (off, rep, lane) in kd.pts[l].items()}
def replay_fixed(f, seconds=80):
    from . import ptreplay as pr, replay as rp
    fns = module().funcs; fn, n, top = FIXED[f.tag]; full = "fixed_point_multiplication_ed448"; q = next(q for q in QUERIES if q.f is f); w = ""; vis = '__attribute__((visibility("default"))) '
    live = [x for x in (fn, full) if x in fns and (f is F448 or x == fn)]
    for x in live: w += vis + "void vfw_%s(void*a,void*b){%s(a,b);}\n" % (x, x)
    if q.fname in fns: w += vis + "void vfw_query(void*a,void*b,void*c,int i){%s(a,b,c,i);}\n" % q.fname
    if not w: return None
    so = pr.unit_library("mult" + f.tag, w); qc = curve_of(f); rc = ED25519 if f is F255 else ED448
    def run(report):
        lib = ctypes.CDLL(so); rng = random.Random(31); t0 = time.time(); K = KINDS[f.tag]
        if q.fname in fns:
            kd = K["precmp4"]; tab = {}
            for i in range(q.n):
                for l in range(4):
                    base = qc.mul(q.mult(i, l) % qc.l, qc.B); pts = [(0, 1)]
                    for k in range(8): pts.append(qc.add(pts[-1], base))
                    tab[i, l] = pts
            for i in range(q.n):
                for t in range(60):
                    k = [(t // 2 + 3 * l) % 9 if t < 18 else rng.randrange(9) for l in range(4)]; sg = [t & 1 if t < 18 else rng.randrange(2) for l in range(4)]
                    P, S, D = rp.Buf(kd.size), rp.Buf(32), rp.Buf(32)
                    S.set(b"".join(((1 << 64) - s if s else 0).to_bytes(8, "little") for s in sg)); D.set(b"".join(x.to_bytes(8, "little") for x in k))
                    rec = dict(function=q.fname, index=i, digits=k, signs=sg); report(rec)
                    lib.vfw_query(P.p, S.p, D.p, ctypes.c_int(i)); raw = P.get()
                    for l in range(4):
                        x, y = tab[i, l][k[l]] if not sg[l] else qc.neg(tab[i, l][k[l]]); v = layout_point(pr, f, kd, l, raw); p = f.p
                        if v != dict(add=(y + x) % p, sub=(y - x) % p, dt=2 * qc.d * x * y % p): return dict(result="lane %d is not the expected multiple" % l, **rec)
                    if not (P.guards() and S.guards() and D.guards()): return dict(result="writes outside the output", **rec)
        kd = K["xytz2"]
        while time.time() - t0 < seconds:
            for x in live:
                r = edge_scalar(rng, (top + 3) // 4, top); b = rp.Buf(kd.size); a = rp.Buf(n); s = r.to_bytes(n, "little"); a.set(s); rec = dict(function=x, scalar=s.hex()); report(rec)
                getattr(lib, "vfw_" + x)(b.p, a.p); v = layout_point(pr, f, kd, 0, b.get())
                E = rc.mul((4 * r if x != full and f is F448 else r) % rc.l, rc.B)
                if not v["Z"] or (v["X"] - E[0] * v["Z"]) % f.p or (v["Y"] - E[1] * v["Z"]) % f.p: return dict(result="the point is not the scalar%s times the base point" % (" times 4" if x != full and f is F448 else ""), **rec)
                if not (a.guards() and b.guards()): return dict(result="writes outside the output", **rec)
                if a.get() != s: return dict(result="the scalar is modified", **rec)
        return None
    return rp.in_child(run, timeout=seconds + 120)
