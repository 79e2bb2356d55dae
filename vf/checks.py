"""Checks above the field layer."""
import time
from .core import *
from .check import TRUST
from .fld import *

def C06(tier):
    from . import canon
    t0 = time.time(); tasks = []; pairs = []; mod = module()
    for f in (F255, F448):
        S = canon.specs(f); sl = slots([x.slot for x in S])
        for x in S:
            x.fname = resolve(mod, x.slot, sl[x.slot])
            if x.fname is None:
                if x.slot not in canon.EMPTY:
                    r = Result(x.name); r.bad("interface:" + x.slot, "the interface slot is empty"); r.wall = 0; pairs.append(((x, [0], sl[x.slot]), r))
                continue
            for al in x.aliases(): tasks.append((x, al, sl[x.slot]))
    res = run_all([(canon.verify, t[:2]) for t in tasks], limit=300)
    pairs += list(zip(tasks, res))
    def rp(rs):
        ids = set(map(id, rs)); return canon.replay([t for t, r in pairs if id(r) in ids])
    return finish("C06", tier, t0, [r for _, r in pairs], "proof",
                  TRUST + ["packed operands have digits within the bounds that the reduction operations guarantee (fieldspecs.tight)",
                           "printing, allocation and random filling are not under contract",
                           "the constants zero are covered by the contracts misc.zero of C01-C04"],
                  rp, functions=sorted(set(t[0].fname for t in tasks)), extra=dict(contracts=len(tasks)))

def C05(tier):
    from . import powers, fm
    fm.Table.get(F255); fm.Table.get(F448)
    t0 = time.time(); mod = module(); S = powers.specs(); sl = slots([x.slot for x in S]); tasks = []; pairs = []
    for x in S:
        x.fname = resolve(mod, x.slot, sl[x.slot])
        if x.fname is None:
            if x.slot in powers.EMPTY: continue
            r = Result(x.name); r.bad("interface:" + x.slot, "the interface slot is empty"); r.wall = 0; pairs.append(((x, False, sl[x.slot]), r)); continue
        for al in ((False, True) if x.kind == "srt" else (False,)): tasks.append((x, al, sl[x.slot]))
    res = run_all([(powers.verify, t[:2]) for t in tasks], limit=300)
    pairs += list(zip(tasks, res))
    dep, dres = dependencies(res)
    def rp(rs):
        ids = set(map(id, rs)); hit = [t for t, r in pairs if id(r) in ids]
        return powers.replay(hit or [t for t, r in pairs])
    return finish("C05", tier, t0, [r for _, r in pairs] + dres, "proof",
                  TRUST + ["Euler's criterion: a nonzero square a of GF(p), p = 5 mod 8, has a^((p-1)/4) = 1 or -1; Fermat: a^(p-2) is the inverse of a nonzero a",
                           "packed operands have digits within the bounds that the reduction operations guarantee (fieldspecs.tight)",
                           "inversion is called with distinct operand and result objects"],
                  rp, functions=sorted(set(t[0].fname for t in tasks) | set(dep)), extra=dict(contracts=len(tasks) + len(dep)))

def dependencies(res):
    """verify the contracts of C01-C06 that the callers in res relied on"""
    from . import canon, powers
    need = {}; dres = []; seen = set(); fns = set()
    for r in res:
        for k, b in getattr(r, "need", {}).items():
            need[k] = b if k not in need else [max(x, y) for x, y in zip(b, need[k])]
        for q in getattr(r, "insts", []):
            k = (q.fn, str(getattr(q, "al", "")), str(getattr(q, "ikey", "")))
            if k in seen: continue
            seen.add(k); dres.append(q); fns.add(q.fn)
    tasks = []; names = []
    for (kind, tag, rn, fn), b in need.items():
        f = F255 if tag == "255" else F448; rep = R[tag, rn]
        if kind == "inv":
            sp = powers.PSpec(f.vt + " inv " + fn, f, rep, "inv"); sp.fname = fn
            tasks.append((powers.verify, (sp, False)))
        else:
            sp = canon.CSpec(f, rep, fn, kind, None if rn == "full" else b); sp.fname = fn; sp.nonneg = kind == "cmp"
            tasks.append((canon.verify, (sp, sp.aliases()[-1])))
        fns.add(fn)
    if tasks:
        out = run_all(tasks, limit=400)
        dres += out
        if any(k[0] == "inv" for k in need):
            f2, d2 = dependencies([r for r in out if getattr(r, "insts", None)]); dres += d2; fns |= set(f2)
    return sorted(fns), dres

def _ladder(pid, tier, items):
    from . import ladder, fm
    t0 = time.time(); mod = module(); pre = []; tasks = []
    for f in set(f for _, f in items): fm.Table.get(f)
    sl = slots([x for x, _ in items])
    for slot, f in items:
        fn = resolve(mod, slot, sl[slot])
        if fn is None: r = Result(slot); r.bad("interface:" + slot, "the interface slot is empty"); r.wall = 0; pre.append(r)
        else: tasks.append((ladder.verify, (slot, f, fn)))
    res = run_all(tasks, limit=400); deps, dres = dependencies(res)
    return finish(pid, tier, t0, pre + res + dres, "proof",
                  TRUST + ["Fermat: a^(p-2) is the inverse of a nonzero a", "secret, peer key and result are distinct objects",
                           "the reference is the ladder of RFC 7748, section 5, written over terms in vf/ladder.py"],
                  lambda rs: ladder.replay([(s, f, sl[s]) for s, f in items]), functions=sorted(set(t[1][2] for t in tasks) | set(deps)))
def C07(tier): return _ladder("C07", tier, [("X25519.shared", F255), ("X25519_x64.shared", F255)])
def C08(tier): return _ladder("C08", tier, [("X448.shared", F448)])

def C09(tier):
    from . import dhkey, ladder, mult, points, fm
    t0 = time.time(); fm.Table.get(F255); fm.Table.get(F448); mod = module(); pre = []; T = []; sl = slots([s for s, _ in dhkey.SLOTS] + ["X25519.shared", "X25519_x64.shared", "X448.shared"])
    for slot, f in dhkey.SLOTS:
        fn = resolve(mod, slot, sl[slot]); sh = slot.replace("keygen", "shared"); sfn = resolve(mod, sh, sl[sh])
        if fn is None or sfn is None: r = Result(slot); r.bad("interface:" + slot, "the interface slot is empty"); r.wall = 0; pre.append(r)
        else: T += [(dhkey.verify_keygen, (slot, f, fn, False)), (dhkey.verify_keygen, (slot, f, fn, True)), (ladder.verify, (sh, f, sfn))]
    T += [(dhkey.lemmas, (F255,)), (dhkey.lemmas, (F448,))]
    res = run_all(T, limit=400); rel = run_all(reliances(res, T), limit=400); deps, dres = dependencies(res + rel)
    _, f1, n1 = _fixed("C09", tier, F255); _, f2, n2 = _fixed("C09", tier, F448, _point_tasks(F448)[0])
    return finish("C09", tier, t0, pre + res + rel + dres + f1 + f2 + [curve_facts(points.ED25519), curve_facts(points.ED448), iso_facts()], "proof",
                  TRUST + [COMPLETE] + ISO + ["the birational map (25519) and the 4-isogeny (448) onto the Montgomery curve are group homomorphisms; the ladder computes the u-coordinate of multiples (induction over the lemmas on one step; projective points at infinity and of order two behave as in Montgomery's theorem)"],
                  lambda rs: dhkey.replay([(s.split(".")[0], f, sl[s], sl[s.replace("keygen", "shared")]) for s, f in dhkey.SLOTS]) or mult.replay_fixed(F255, 40) or mult.replay_fixed(F448, 40),
                  functions=sorted(set(t[1][2] for t in T if len(t[1]) > 2) | set(deps) | set(n1) | set(n2) | set(r.fn for r in rel)))

def _point_tasks(f):
    from . import points, fm
    fm.Table.get(F255); fm.Table.get(F448); mod = module(); tasks = []; skipped = []
    for s in points.SPECS:
        if s.f is not f: continue
        if s.fname not in mod.funcs: skipped.append(s.fname); continue
        for i in ([{}] if not any(r == "int" for r, _ in s.args) else [{1: 0}, {1: 1}]): tasks.append((points.verify, (s, None, None, i)))
    return tasks, skipped
def curve_facts(cv):
    """the facts that make the addition law complete and the group what it is (closed computations)"""
    p = cv.f.p; r = Result("curve " + cv.name); t0 = time.time()
    for n, ok in (("-1 is a square" if cv.f is F255 else "d is a nonsquare", pow(-1 % p, (p - 1) // 2, p) == 1 if cv.f is F255 else pow(cv.d, (p - 1) // 2, p) == p - 1),
                  ("d is a nonsquare", pow(cv.d, (p - 1) // 2, p) == p - 1), ("the base point is on the curve", cv.on(cv.B)), ("the order of the base point divides l", cv.mul(cv.l, cv.B) == (0, 1))):
        if ok: r.ok("fact:" + n, "closed computation", 0.0)
        else: r.bad("fact:" + n, "does not hold")
    r.wall = time.time() - t0
    return r
COMPLETE = "completeness of the twisted Edwards addition law for a square and d nonsquare (its denominators never vanish on curve points)"
def C10(tier):
    from . import points, ptreplay
    t0 = time.time(); tasks, skipped = _point_tasks(F255); res = run_all(tasks, limit=400); deps, dres = dependencies(res)
    return finish("C10", tier, t0, res + [curve_facts(points.ED25519)] + dres, "proof",
                  TRUST + [COMPLETE, "operands of a point function are distinct objects, on the curve, with digits within the bounds that the reduction operations guarantee",
                           "_2way_doubling with compute_T = 0 leaves T unspecified"],
                  lambda rs: ptreplay.replay([s for s in points.SPECS if s.f is F255]),
                  functions=sorted(set(t[1][0].fname for t in tasks) | set(deps)), extra=dict(not_live=skipped))
def _codec(pid, tier, f):
    from . import codec, fm
    t0 = time.time(); fm.Table.get(f); T = codec.tasks(f); res = run_all(T, limit=400); deps, dres = dependencies(res)
    return finish(pid, tier, t0, res + [codec.facts(f)] + dres, "proof",
                  TRUST + ["Euler's criterion and Fermat's theorem for the classes of (y^2-1)/(d*y^2-a); the parity of p-x is the opposite of that of x for x != 0",
                           "decoding returns minus the encoded point (the operand of verification)",
                           "the point that is encoded has digits within the bounds that the reduction operations guarantee and Z != 0"],
                  lambda rs: codec.replay(f), functions=sorted({codec.ENC[f.tag], codec.DEC[f.tag]} | set(deps)))
def C16(tier): return _codec("C16", tier, F255)
def C17(tier): return _codec("C17", tier, F448)

def _fixed(pid, tier, f, extra=()):
    from . import mult, points, fm
    t0 = time.time(); fm.Table.get(F255); fm.Table.get(F448); T = []
    for q in mult.QUERIES:
        if q.f is f: T += [(mult.verify_query, (q, i)) for i in range(q.n)]
    T.append((mult.verify_fixed, (f,)) if f is F255 else (mult.verify_fixed448, ())); T += list(extra)
    res = run_all(T, limit=400); fx = res[len(T) - 1 - len(extra)]
    have = set((t[1][0].fname, t[1][1]) for t in T if t[0] is mult.verify_query); r = Result("table queries")
    for x in getattr(fx, "used_q", []):
        if tuple(x) not in have: r.bad("query:%s[%d]" % tuple(x), "the contract of the query is not verified")
    r.wall = 0; deps, dres = dependencies(res)
    return t0, res + [r] + dres, sorted(set(t[1][0].fname for t in T if t[0] is mult.verify_query) | {mult.FIXED[f.tag][0]} | set(deps))
def C11(tier):
    from . import mult, points
    t0, res, fns = _fixed("C11", tier, F255)
    return finish("C11", tier, t0, res + [curve_facts(points.ED25519)], "proof",
                  TRUST + [COMPLETE, "the group law is associative and commutative: values of points are integer multiples of the base point",
                           "the scalar is below 2^253; scalar and result are distinct objects"], lambda rs: mult.replay_fixed(F255), functions=fns)
def _scal(pid, tier, f):
    from . import scal
    t0 = time.time(); T = scal.tasks(f); res = run_all(T, limit=400); deps, dres = dependencies(res)
    return finish(pid, tier, t0, res + dres, "proof",
                  TRUST + ["operands of a function are distinct objects", "the result of calculate_s and of the reductions is in the low words of the buffer, as their callers use it"],
                  lambda rs: scal.replay(f), functions=sorted(set(scal.LIVE[f]) | set(x.split("[")[0] for x in deps)))
def C14(tier): return _scal("C14", tier, "255")
def C15(tier): return _scal("C15", tier, "448")
def iso_facts():
    """the maps between edwards448 and its twist on the base point (closed computations)"""
    from . import points as p
    r = Result("isogenies of edwards448"); t0 = time.time()
    for n, ok in (("the dual isogeny of the isogeny of B is 4B", p.dual448(p.phi448(p.B448)) == p.ED448.mul(4, p.B448)), ("the isogeny of B is on the twist", p.ISO448.on(p.ISO448.B)),
                  ("the order of the isogenous base point divides l", p.ISO448.mul(p.L448, p.ISO448.B) == (0, 1)), ("the order is odd", p.L448 % 4 == 3)):
        if ok: r.ok("fact:" + n, "closed computation", 0.0)
        else: r.bad("fact:" + n, "does not hold")
    r.wall = time.time() - t0
    return r
ISO = ["the isogenies between edwards448 and its twist a = -1, d = -39082 are group homomorphisms; the addition law of the twist is complete on the subgroup of odd order (its exceptional cases need a point of even order)",
       "the group law is associative and commutative: values of points are integer multiples of the base point"]
def C12(tier):
    from . import mult, points, scal, ptreplay
    T, skipped = _point_tasks(F448)
    t0, res, fns = _fixed("C12", tier, F448, T)
    return finish("C12", tier, t0, res + [curve_facts(points.ED448), iso_facts()], "proof", TRUST + [COMPLETE] + ISO + ["scalar and result are distinct objects"],
                  lambda rs: mult.replay_fixed(F448) or ptreplay.replay([s for s in points.SPECS if s.f is F448]), functions=sorted(set(fns) | {"fixed_point_multiplication_ed448", "div4"} | set(t[1][0].fname for t in T)), extra=dict(not_live=skipped))

def reliances(res, done=()):
    """verify the contracts of scalar arithmetic that the flows relied on"""
    T = {}
    for r in res:
        x = getattr(r, "relied", ())
        for key, fn, a in ([(k,) + v for k, v in x.items()] if isinstance(x, dict) else x): T[key] = (fn, a)
    return [T[k] for k in sorted(T, key=str) if T[k] not in done]
FLOW = ["octet strings, points and scalars are terms; hashing is an uninterpreted function of the octet string and the encoding of the point (specification and code share them)",
        "messages are shorter than 2^61 bytes; buffers given by the caller are distinct objects of their documented size",
        "the hash functions compute SHA-512 and SHAKE256 of what has been absorbed (C22)"]
def _sign(pid, tier, f):
    from . import flow, mult, points, codec, scal
    F = F255 if f == "255" else F448
    T, bad = flow.tasks(f, "keygen"); T2, b2 = flow.tasks(f, "sign"); T += T2; bad += b2; nf = len(T)
    t0 = time.time(); res = run_all(T, limit=400); rel = run_all(reliances(res) + [(codec.verify_encoding, (F,))], limit=400)
    deps, dres = dependencies(rel); X = []
    if f == "448": X = _point_tasks(F448)[0]
    _, fres, fns = _fixed(pid, tier, F, X); facts = [curve_facts(points.ED25519)] if f == "255" else [curve_facts(points.ED448), iso_facts()]
    def rp(rs):
        r = flow.replay(f, ("keygen", "sign"), 40 if rs else 12)
        if r or not rs: return r
        return scal.replay(f, 40) or mult.replay_fixed(F, 50) or codec.replay(F, 40)
    return finish(pid, tier, t0, res + bad + rel + dres + fres + facts, "proof", TRUST + [COMPLETE] + (ISO if f == "448" else ["the group law is associative and commutative: values of points are integer multiples of the base point"]) + FLOW,
                  rp, functions=sorted(set(t[1][1] for t in T) | set(fns) | set(deps) | set(r.fn for r in rel)), notes="12 s of signatures made by the compiled library are compared with a Python reference (bounded supplement)", always=True)
def C18(tier): return _sign("C18", tier, "255")
def C19(tier): return _sign("C19", tier, "448")

DOUBLE = ["the point A is on the curve (edwards448: on the image of the isogeny), its digits within the bounds that the reduction operations guarantee; scalars below 2^253 (edwards448: any, divided by four modulo the order)",
          "operands and result are distinct objects", "the group law is associative and commutative"]
def C13(tier):
    from . import dmult, points, fm, ptreplay
    t0 = time.time(); fm.Table.get(F255); fm.Table.get(F448); T = dmult.tasks(F255) + dmult.tasks(F448); res = run_all(T, limit=400); rel = run_all(reliances(res, T), limit=400) if reliances(res, T) else []; deps, dres = dependencies(res + rel)
    return finish("C13", tier, t0, res + rel + dres + [curve_facts(points.ED25519), curve_facts(points.ED448), iso_facts()], "proof", TRUST + [COMPLETE] + ISO[:1] + DOUBLE,
                  lambda rs: dmult.replay(F255, 50) or dmult.replay(F448, 60), functions=sorted(set(r.fn.split("[")[0] for r in res) | set(deps)))
def _verify(pid, tier, f):
    from . import flow, dmult, points, codec, scal, fm
    F = F255 if f == "255" else F448; fm.Table.get(F255); fm.Table.get(F448)
    T, bad = flow.tasks(f, "verify"); nf = len(T); T = dmult.tasks(F) + codec.tasks(F) + T
    t0 = time.time(); res = run_all(T, limit=400); rel = run_all(reliances(res, T), limit=400); deps, dres = dependencies(res + rel)
    facts = [curve_facts(points.ED25519)] if f == "255" else [curve_facts(points.ED448), iso_facts()]
    def rp(rs):
        r = flow.replay(f, ("verify",), 60 if rs else 12)
        if r or not rs: return r
        return dmult.replay(F, 50) or scal.replay(f, 40) or codec.replay(F, 40)
    return finish(pid, tier, t0, res + bad + rel + dres + [codec.facts(F)] + facts, "proof", TRUST + [COMPLETE] + (ISO[:1] if f == "448" else []) + DOUBLE[1:] + FLOW, rp,
                  functions=sorted(set(r.fn.split("[")[0] for r in res) | set(deps) | set(r.fn.split("[")[0] for r in rel)), notes="12 s of verifications by the compiled library (valid, altered, malleated and forged signatures) are compared with a Python reference (bounded supplement)", always=True)
def C20(tier): return _verify("C20", tier, "255")
def C21(tier): return _verify("C21", tier, "448")

def C25(tier):
    from . import ct
    t0 = time.time(); T, bad = ct.tasks(); res = run_all(T + ct.HASH_TASKS, limit=500); r = Result("hash functions")
    low = sorted(set(x for q in res for x in getattr(q, "lowered", ())))
    for x in low:
        if x in ct.VERIFIED: r.ok("contract of %s is verified" % x, "cross-reference")
        else: r.bad("contract of " + x, "the hash function is used under contract and not verified")
    r.wall = 0
    return finish("C25", tier, t0, bad + res + [r], "proof",
                  ["the compiler translates select instructions (conditional expressions without side effects) to branch-free code; the compiled code is tried with memcheck (bounded supplement)",
                   "lengths, messages, contexts, peer keys and public keys are public; an address computed from a member of a structure stays in that member (C22, C26)", "time of single instructions does not depend on operands",
                   "message and key buffers are distinct objects; heap, output and printing functions of the interface are not under contract"],
                  lambda rs: ct.replay(60 if rs else 15), functions=sorted(set(o[0].split(" in ")[1].split(" does")[0].split(":")[-1] for q in res for o in q.obs if " in " in o[0])),
                  notes="15 s of calls of the compiled library under memcheck with undefined secrets (bounded supplement)", always=True)
def C26(tier):
    from . import memory
    return memory.C26(tier)

def C27(tier):
    from . import rng
    t0 = time.time(); T, bad = rng.tasks(); res = run_all(T, limit=300)
    return finish("C27", tier, t0, bad + res, "proof",
                  TRUST + ["contract of the system: read returns -1 and writes nothing, or writes the number of bytes it returns, at most what is asked for and at most 0x7ffff000; open returns -1 or a descriptor; /dev/urandom and /dev/random give random bytes",
                           "ending the process (abort, exit) counts as reporting the failure: the functions have no result; termination when reads keep being interrupted is not claimed"],
                  lambda rs: rng.replay(30), functions=[rng.FUNC] + sorted(set(t[1][1] for t in T[1:])))
