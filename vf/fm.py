"""The machine for callers of the field layer: calls to field functions use their contracts.

A contract call checks its precondition (digit bounds, overlap of arguments), havocs the outputs and assumes the
postcondition: the output digits are fresh, within the proved bounds, and their value is congruent to the contract's
expression modulo p (recorded on digit 0, kind "fdef").  Every contract instance that is used is itself verified
against the function body (fnspec.verify), for exactly the precondition the call site establishes when that is not
covered by the public contract of C01-C04."""
import copy, time
from .core import *
from .fld import *
from .fe import FE, V
from . import fnspec, fieldspecs

CONTRACT_FULL = {"arith.add", "arith.sub", "arith.neg", "arith.mul", "arith.sqr", "arithex.intmul", "arithex.intsqr", "arithex.intmul2",
                 "arithex.intsqr2", "arithex.mula24", "arithex.reduce", "arithex.reduce2"}
CONTRACT_PACKED = {"arith.mul", "arith.sqr", "arithex.intmul", "arithex.intsqr", "arithex.compress", "arithex.compress2", "arithex.compressfast", "arithex.new_compressfast2"}

_inst = {}      # verified contract instances of this process: key -> Result
def round_up(x):
    n = x.bit_length()
    if n <= 6: return x
    k = n - 6
    return ((x >> k) + 1 << k) - 1 if x & ((1 << k) - 1) else x

class Table:
    """contracts resolved against the current tree"""
    _cache = {}
    def __init__(s, fld):
        s.fld = fld; s.by = {}
        specs = [x for x in fieldspecs.full(fld) if x.slot.split(".", 2)[2] in CONTRACT_FULL]
        for w in (1, 2, 4): specs += [x for x in fieldspecs.packed(fld, w) if x.slot.split(".", 2)[2] in CONTRACT_PACKED]
        extra = {}
        for rep, pre in (("full", "_1w_full."), ("red1", "_1w_red.")):
            for m in ("arith.misc.ser", "arith.misc.unser", "arith.inv", "arith.cmp", "arith.sgn"): extra[fld.vt + "." + pre + m] = (rep, m)
        sl = slots([x.slot for x in specs] + list(extra))
        mod = module()
        for x in specs:
            x.fname = resolve(mod, x.slot, sl[x.slot])
            if x.fname is not None: s.by.setdefault(x.fname, []).append(x)
        if fld.tag == "255" and "intmul2_Fp255_2w_redradix" in mod.funcs:   # both products of a sum and its swapped copy; not in the interface
            E = R["255", "red2"]
            x = fnspec.FnSpec("Fp25519._2w_red.arithex.intmul2", fld, [("out", E), ("out", E), ("in", E), ("in", E)],
                              lambda a, b: [[u * v for u, v in zip(a, b)], [u * v for u, v in zip((a[1], a[0]), b)]], pre={2: fieldspecs.unit(E, 3.1), 3: fieldspecs.unit(E, 3.1)}, alias=False)
            x.fname = "intmul2_Fp255_2w_redradix"; s.by[x.fname] = [x]
        s.extra = {}
        if fld.tag == "255" and "modp_Fp255_1w_fullradix" in mod.funcs: s.extra["modp_Fp255_1w_fullradix"] = ("full", "canon")
        for path, v in extra.items():
            fn = resolve(mod, path, sl[path])
            if fn is not None: s.extra[fn] = v
    @classmethod
    def get(cls, fld):
        if fld.tag not in cls._cache: cls._cache[fld.tag] = cls(fld)
        return cls._cache[fld.tag]

class FM(Machine):
    tight_int = False     # bounds of unreduced products follow those of the operands
    def __init__(s, mod, flds, use=None, ctx=None):
        super().__init__(mod, ctx)
        s.flds = flds; s.fe = {f.tag: FE(f.p) for f in flds}
        s.insts = {}                       # contract instances used
        s.bmap = {f.tag: {} for f in flds} # ctx boolean -> FE boolean
        s.rmap = {f.tag: {} for f in flds}
        s.sermemo = {f.tag: {} for f in flds}
        s.need = {}                        # contracts of C05/C06 relied on: (kind, field, rep, function) -> digit bounds
        s.cmps = {}                        # atoms of comparison results
        for f in flds:
            T = Table.get(f)
            for fn, specs in T.by.items():
                s.contracts[fn] = (lambda m, a, specs=specs, f=f: m.by_contract(f, specs, a))
            for fn, (rep, m) in T.extra.items():
                if use is not None and m not in use: continue
                if m == "arith.misc.ser": s.contracts[fn] = (lambda mc, a, f=f, rep=rep, fn=fn: mc.h_ser(f, R[f.tag, rep], a, fn))
                elif m == "arith.misc.unser": s.contracts[fn] = (lambda mc, a, f=f, rep=rep, fn=fn: mc.h_unser(f, R[f.tag, rep], a, fn))
                elif m == "arith.cmp": s.contracts[fn] = (lambda mc, a, f=f, rep=rep, fn=fn: mc.h_cmp(f, R[f.tag, rep], a, fn))
                elif m == "canon": s.contracts[fn] = (lambda mc, a, f=f, rep=rep, fn=fn: mc.h_canon(f, R[f.tag, rep], a, fn))
                elif m == "arith.inv": s.contracts[fn] = (lambda mc, a, f=f, rep=rep, fn=fn: mc.h_inv(f, R[f.tag, rep], a, fn))
    def require(s, kind, f, rep, fn, ds):
        """the caller relies on this contract for operands with these digit bounds"""
        base = [(1 << 64) - 1] * rep.n if rep.name == "full" else list(fieldspecs.tight(rep))
        k = (kind, f.tag, rep.name, fn)
        for d in ds:
            if any(w.hi > b for w, b in zip(d, base)):
                base = [max(b, w.hi) for w, b in zip(d, base)]
        old = s.need.get(k)
        s.need[k] = base if old is None else [max(a, b) for a, b in zip(old, base)]
    def call(s, name, args, rt=None):
        if name not in s.contracts and len(args) == 2 and isinstance(args[0], Ptr) and isinstance(args[1], int) and s.is_leaf(name):
            r = s.h_sqrn(name, args)
            if r: return None
        return super().call(name, args, rt)
    def is_leaf(s, name):
        """a function with loops that neither calls nor returns anything: candidate for repeated squaring"""
        f = s.m.funcs.get(name)
        if f is None: return False
        if not hasattr(f, "_leaf"):
            ir.body(s.m, f)
            ins = [x for b in f.blocks.values() for x in b]
            f._leaf = not any(x.op == "asm" or x.op == "call" and not (x.x[0] == "g" and x.x[1].startswith("llvm.")) or x.op == "ret" and x.a for x in ins) \
                      and any(x.op == "phi" for x in ins) and any(x.op == "mul" for x in ins)
        return f._leaf
    def h_sqrn(s, name, args):
        from . import powers
        for f in s.flds:
            rep = R[f.tag, "red1"]
            if args[0].off != 0 or args[0].obj.size != rep.size: continue
            d, t = s.read(f, rep, args[0])
            pre = powers.invariant_bounds(rep)
            if any(w.hi > b for w, b in zip(d, pre)): continue
            k = (name, "sqrn", args[1])
            r = _inst.get(k)
            if r is None:
                try: r = powers.sqrn(name, f, rep, args[1], pre)
                except Unsupported as e: r = Result(name); r.unsup.append(str(e))
                except Violation as e: r = Result(name); r.bad(e.ob, e.msg)
                _inst[k] = r
            if r.fail or r.unsup:
                s.insts[k] = r
                raise Violation("callee:" + name, "repeated squaring %s(times=%d): %s" % (name, args[1], (r.fail or r.unsup)[:2]))
            s.insts[k] = r
            s.called[name] = s.called.get(name, 0) + 1
            s.write(f, rep, args[0], 0, s.fe[f.tag].pow(t, 1 << args[1]), r.outb)
            return True
        return False
    # ---------------------------------------------------------------- values
    def fdef(s, f, F, n, bounds, weights, lo=None):
        """fresh digits whose value is F modulo p"""
        ws = []; rest = {}
        for i in range(n):
            if i == 0: ws.append(None); continue
            a = s.c.atom("g%d" % len(s.c.atoms), 0, bounds[i])
            ws.append(W(64, {(a.id,): 1}, 0, bounds[i]))
            rest[(a.id,)] = 1 << weights[i]
        a = s.c.atom("G%d" % len(s.c.atoms), 0, bounds[0], "fdef", (f.tag, F, rest))
        ws[0] = W(64, {(a.id,): 1}, 0, bounds[0])
        return ws
    def fvar(s, f, name): return V(s.fe[f.tag], s.fe[f.tag].var(name))
    def fbool(s, f, a):
        m = s.bmap[f.tag]
        if a not in m: m[a] = s.fe[f.tag].bool(s.c.atoms[a].name)
        return m[a]
    def fval(s, f, p):
        """term of the integer polynomial p modulo the field prime"""
        E = s.fe[f.tag]; out = {}; c = s.c; at = c.atoms
        p = {m: k % f.p for m, k in c.subst(c.expand(p), c.assume).items()}
        p = {m: k for m, k in p.items() if k}
        while True:
            fd = {}
            for m in p:
                for x in m:
                    if at[x].kind == "fdef" and at[x].d[0] == f.tag: fd.setdefault(x, []).append(m)
            if not fd: break
            for x, ms in fd.items():
                q = {}
                for m in ms:
                    k = p.pop(m, None)
                    if k is None: continue
                    l = list(m); l.remove(x)
                    if x in l: raise Unsupported("nonlinear use of an abstract digit at %s" % s.where())
                    q[tuple(l)] = k
                if not q: continue
                _, F, rest = at[x].d
                out = E.add(out, E.raw_mul(s.conv(f, q), F))
                r = c.pmul(q, rest)
                for m, k in r.items():
                    v = (p.get(m, 0) - k) % f.p
                    if v: p[m] = v
                    else: p.pop(m, None)
        if p: out = E.add(out, s.conv(f, p))
        return out
    def conv(s, f, p):
        """polynomial over booleans and raw atoms -> field term"""
        r = {}; at = s.c.atoms
        for m, k in p.items():
            mono = []
            for x in m:
                if at[x].bool: i = s.fbool(f, x)
                else:
                    rm = s.rmap[f.tag]
                    if x not in rm: rm[x] = next(iter(s.fe[f.tag].var("raw:" + at[x].name)))[0][0]
                    i = rm[x]
                mono.append((i, 1))
            d = {}
            for i, e in mono: d[i] = 1 if s.fe[f.tag].isbool(i) else d.get(i, 0) + e
            key_ = tuple(sorted(d.items()))
            v = (r.get(key_, 0) + k) % f.p
            if v: r[key_] = v
            else: r.pop(key_, None)
        return r
    def read(s, f, rep, p, lane=0):
        """digits and term of an element in memory"""
        ds = []
        for i in range(rep.n):
            d = s.load_int(Ptr(p.obj, p.off + rep.off(lane, i)), 8)
            if isinstance(d, Undef): raise Violation("uninitialised", "operand digit %d lane %d of %s is uninitialised at %s" % (i, lane, p.obj.name, s.where()))
            ds.append(s.c.norm(s.c.tow(d, 64)))
        v = {}
        for d, w in zip(ds, rep.weights): v = padd(v, pscale(d.p, 1 << w))
        return ds, s.fval(f, v)
    def value_of(s, f, rep, p, lane=0): return V(s.fe[f.tag], s.read(f, rep, p, lane)[1])
    def write(s, f, rep, p, lane, F, bounds):
        for i, w in enumerate(s.fdef(f, F, rep.n, bounds, rep.weights)):
            s.store_int(Ptr(p.obj, p.off + rep.off(lane, i)), 8, w)
    def put_element(s, f, rep, p, name, bounds=None, vals=None):
        """a symbolic element (all lanes); returns the lane terms"""
        out = []
        for l in range(rep.lanes):
            v = vals[l] if vals else s.fvar(f, name + (".%d" % l if rep.lanes > 1 else ""))
            s.write(f, rep, p, l, v.t, bounds or [(1 << 64) - 1] * rep.n)
            out.append(v)
        return out
    def overlap(s, a, na, b, nb): return a.obj is b.obj and a.off < b.off + nb and b.off < a.off + na
    # ---------------------------------------------------------------- contracts
    def by_contract(s, f, specs, args):
        sp = specs[0]; n = len(sp.args); al = list(range(n))
        for i, (role, rep) in enumerate(sp.args):
            if not isinstance(args[i], Ptr) or args[i].obj is None: raise Violation("memory", "argument %d of %s is not a pointer at %s" % (i, sp.fname, s.where()))
            s.check(args[i], rep.size, "read" if role == "in" else "write")
            for j in range(i):
                if args[j] == args[i]: al[i] = al[j]; break
                if s.overlap(args[i], rep.size, args[j], sp.args[j][1].size):
                    raise Unsupported("partially overlapping arguments of %s at %s" % (sp.fname, s.where()))
        dig = {}; terms = {}
        for i, (role, rep) in enumerate(sp.args):
            if role == "out": continue
            dig[i] = []; terms[i] = []
            for l in range(rep.lanes):
                d, t = s.read(f, rep, args[i], l); dig[i].append(d); terms[i].append(V(s.fe[f.tag], t))
        bnd = {i: [max(d[k].hi for d in dig[i]) for k in range(sp.args[i][1].n)] for i in dig}
        chosen = None
        tight_site = sp.slot.rsplit(".", 1)[1] in ("compressfast", "new_compressfast2") or "w_red" in sp.slot and s.tight_int and sp.slot.rsplit(".", 1)[1] in ("intmul", "intmul2", "intsqr", "compress", "compress2")
        for x in specs:
            if tight_site: break    # the bounds of the result follow those of the operand
            if al != list(range(n)) and al not in x.aliases(): continue
            if all(x.pre.get(i) is None or all(a <= b for a, b in zip(bnd[i], x.pre[i])) for i in bnd): chosen = x; break
        if chosen is None:
            chosen = copy.copy(sp); chosen.pre = {i: [round_up(v) for v in bnd[i]] for i in bnd}; chosen.bound = {}
            lp = {i: [[round_up(w.hi) for w in d] for d in dig[i]] for i in dig}
            if tight_site and any(len(set(map(tuple, v))) > 1 for v in lp.values()): chosen.lpre = lp
            chosen.name = sp.slot + "{call site}"; chosen.ikey = tuple(sorted((i, tuple(v)) for i, v in chosen.pre.items())) + tuple(sorted((i, tuple(map(tuple, v))) for i, v in chosen.lpre.items()))
        r = s.instance(chosen, al)
        outs = [i for i, (role, rep) in enumerate(sp.args) if role != "in"]
        exp = sp.post(*[terms[i] for i in range(n) if sp.args[i][0] != "out"])
        for k, i in enumerate(outs):
            for l in range(sp.args[i][1].lanes):
                e = exp[k][l]; e = e.t if isinstance(e, V) else s.fe[f.tag].const(e)
                s.write(f, sp.args[i][1], args[i], l, e, r.loutb[i][l] if len(r.loutb.get(i, ())) > l else r.outb[i])
        return None
    def instance(s, sp, al):
        k = (sp.fname, sp.name, tuple(al), getattr(sp, "ikey", None))
        r = _inst.get(k)
        if r is None:
            t0 = time.time()
            try: r = fnspec.verify(sp, al)
            except Violation as e: r = Result(sp.name); r.bad(e.ob, e.msg)
            r.wall = time.time() - t0
            r.al = al; r.slot = sp.slot; r.ikey = getattr(sp, "ikey", None)
            _inst[k] = r
        if k not in s.insts: s.insts[k] = r
        if r.fail or r.unsup or not hasattr(r, "outb"):
            raise Violation("callee:" + sp.name, "the contract of %s%s does not hold: %s" % (sp.fname, "" if al == list(range(len(al))) else " under aliasing %s" % al, (r.fail or r.unsup)[:2]))
        return r
    def results(s): return list(s.insts.values())
    def h_inv(s, f, rep, a, fn):
        if s.overlap(a[0], rep.size, a[1], rep.size): raise Violation("precondition:inv", "inv is called with overlapping arguments at %s" % s.where())
        s.check(a[0], rep.size, "write"); s.check(a[1], rep.size, "read")
        d, t = s.read(f, rep, a[1])
        s.require("inv", f, rep, fn, [d])
        s.write(f, rep, a[0], 0, s.fe[f.tag].pow(t, f.p - 2), [(1 << 64) - 1] * rep.n if rep.name == "full" else fieldspecs.tight(rep))
    def ser_words(s, f, t):
        """the canonical encoding of a term: 64-bit words, the same atoms for equal terms"""
        E = s.fe[f.tag]; mm = s.sermemo[f.tag]; sm = E.ev(t)
        for (u, ws) in mm.get(sm, ()):
            if E.eq(u, t): return ws
        n = f.nbytes // 8
        if not t: ws = [W(64, {}, 0, 0)] * n
        elif len(t) == 1 and () in t: ws = [W(64, pconst(t[()] >> 64 * i & (1 << 64) - 1), *[t[()] >> 64 * i & (1 << 64) - 1] * 2) for i in range(n)]
        else: ws = s.fdef(f, t, n, [min((1 << 64) - 1, f.p >> 64 * i) for i in range(n)] if False else [(1 << 64) - 1] * (n - 1) + [f.p >> 64 * (n - 1)], [64 * i for i in range(n)])
        mm.setdefault(sm, []).append((t, ws))
        return ws
    def h_ser(s, f, rep, a, fn):
        s.check(a[0], f.nbytes, "write"); s.check(a[1], rep.size, "read")
        d, t = s.read(f, rep, a[1])
        s.require("ser", f, rep, fn, [d])
        ws = s.ser_words(f, t)
        if rep.name == "full":   # canonicalises its operand as well
            for i, w in enumerate(ws): s.store_int(Ptr(a[1].obj, a[1].off + 8 * i), 8, w)
        for i, w in enumerate(ws): s.store_int(Ptr(a[0].obj, a[0].off + 8 * i), 8, w)
    def h_canon(s, f, rep, a, fn):
        s.check(a[0], rep.size, "write")
        d, t = s.read(f, rep, a[0])
        s.require("canon", f, rep, fn, [d])
        for i, w in enumerate(s.ser_words(f, t)): s.store_int(Ptr(a[0].obj, a[0].off + 8 * i), 8, w)
    def h_cmp(s, f, rep, a, fn):
        """zero exactly when the operands are congruent, otherwise positive"""
        t = []; ds = []
        for x in a[:2]:
            s.check(x, rep.size, "read"); d, v = s.read(f, rep, x); t.append(v); ds.append(d)
        s.require("cmp", f, rep, fn, ds)
        if rep.name == "full":
            for x, v in zip(a[:2], t):
                for i, w in enumerate(s.ser_words(f, v)): s.store_int(Ptr(x.obj, x.off + 8 * i), 8, w)
        return s.comparison(f, t[0], t[1])
    def comparison(s, f, ta, tb):
        E = s.fe[f.tag]
        if E.eq(ta, tb): return 0
        if not ta or not tb: pass
        at = s.c.atom("cmp%d" % len(s.c.atoms), 0, (1 << 31) - 1, "cmp", (f.tag, ta, tb))
        return W(32, {(at.id,): 1}, 0, (1 << 31) - 1)
    def h_unser(s, f, rep, a, fn):
        s.check(a[0], rep.size, "write"); s.check(a[1], f.nbytes, "read")
        v = {}
        for i in range(f.nbytes):
            d = s.load_int(Ptr(a[1].obj, a[1].off + i), 1)
            if isinstance(d, Undef): raise Violation("uninitialised", "byte %d of the string given to unser is uninitialised at %s" % (i, s.where()))
            v = padd(v, pscale(s.c.norm(s.c.tow(d, 8)).p, 1 << 8 * i))
        s.require("unser", f, rep, fn, [])
        t = s.fval(f, v)
        if rep.name == "full":
            for i, w in enumerate(s.ser_words(f, t)): s.store_int(Ptr(a[0].obj, a[0].off + 8 * i), 8, w)
        else: s.write(f, rep, a[0], 0, t, fieldspecs.tight(rep))
    # ---------------------------------------------------------------- inputs
    def put_bits(s, p, nbytes, name):
        """bytes made of individual booleans; returns the list of bits as integer polynomials"""
        bits = []
        for i in range(nbytes):
            q = {}
            for j in range(8):
                b = s.c.atom("%s[%d]" % (name, 8 * i + j), 0, 1); bits.append({(b.id,): 1}); q[(b.id,)] = 1 << j
            p.obj.cells[p.off + i] = (W(8, q, 0, 255), 1)
        return bits
    def put_coordinate(s, f, p, name, masked_top=0):
        """bytes of a public string; the value of the string without its masked_top top bits, modulo p, is the returned term"""
        n = f.nbytes; u = s.fvar(f, name); rest = {}; cells = []
        for i in range(n):
            if i == 0: cells.append(None); continue
            b = 8 - masked_top if i == n - 1 else 8
            a = s.c.atom("%s.%d" % (name, i), 0, (1 << b) - 1)
            rest[(a.id,)] = 1 << 8 * i; q = {(a.id,): 1}
            if b < 8:
                for j in range(b, 8):
                    t = s.c.atom("%s.top%d" % (name, j), 0, 1); q[(t.id,)] = 1 << j
            cells.append(W(8, q, 0, 255))
        a = s.c.atom(name + ".0", 0, 255, "fdef", (f.tag, u.t, rest)); cells[0] = W(8, {(a.id,): 1}, 0, 255)
        for i, w in enumerate(cells): p.obj.cells[p.off + i] = (w, 1)
        return u
