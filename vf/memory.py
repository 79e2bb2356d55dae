"""No operation reads or writes outside the objects it is given (C26).

Memory obligations are generated with every contract: each access of every executed instruction (inline assembly included)
lies inside the object its pointer was derived from, which is alive and, for a write, not constant; no branch, address, asm
operand or callee argument is uninitialised; each asm block declares what it changes; results are fully written.  This check
verifies all contracts of C01-C21 and the label analysis of C25 once (tasks that several properties share are run once) and
reports the memory obligations of all functions."""
import time
from . import core, check, checks, exe
from .core import *
from . import ct, flow
from .ct import PUB

KINDS = {"memory", "frame", "asm", "trap", "unreachable", "uninitialised", "bounds", "interface"}
PARTS = ["C25", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"]

def key(x):
    if isinstance(x, (int, str, bytes, bool, type(None), float)): return repr(x)
    if isinstance(x, (tuple, list)): return "(" + ",".join(map(key, x)) + ")"
    if isinstance(x, dict): return "{" + ",".join(key(k) + ":" + key(v) for k, v in x.items()) + "}"
    if callable(x): return x.__module__ + "." + x.__qualname__ + (str(id(x)) if "<" in x.__qualname__ else "")
    if type(x).__module__ == "vf.fld": return type(x).__name__ + str(id(x))
    return type(x).__name__ + key(x.__dict__)
def collect(parts, tier="quick"):
    """run the named checks with shared tasks; returns [(property, results)]"""
    got = []; memo = {}; real = core.run_all
    def fin(pid, tier, t0, results, *a, **k): got.append((pid, list(results))); return 0
    def run(tasks, procs=8, limit=600):
        tasks = list(tasks); ks = [key(t) for t in tasks]; todo = [(k, t) for k, t in dict(zip(ks, tasks)).items() if k not in memo]
        for (k, _), r in zip(todo, real([t for _, t in todo], procs, limit)): memo[k] = r
        return [memo[k] for k in ks]
    old = checks.finish, checks.run_all, check.finish, check.run_all
    checks.finish = check.finish = fin; checks.run_all = check.run_all = run
    try:
        for p in parts: (getattr(checks, p, None) or getattr(check, p))(tier)
    finally: checks.finish, checks.run_all, check.finish, check.run_all = old
    return got

# ---------------------------------------------------------------- functions outside the other properties
class MM(ct.CTM):
    """label machine in which everything is public: only the memory obligations remain"""
    def __init__(s, mod):
        super().__init__(mod)
        def memalign(m, a):
            m.store_int(a[0], 8, Ptr(m.heap(a[2]))); return 0
        def rnd(m, a):
            if not isinstance(a[1], int): raise Unsupported("random bytes of unknown number")
            m.clear(a[0], a[1]); m.check(a[0], a[1], "write")
            for i in range(a[1]): a[0].obj.cells[a[0].off + i] = (PUB, 1)
        def free(m, a):
            p = a[0]
            if p == 0: return
            if not isinstance(p, Ptr) or p.obj.kind != "heap" or p.off != 0: raise Violation("memory", "free of %r at %s" % (p, m.where()))
            if not p.obj.live: raise Violation("memory", "double free at %s" % m.where())
            p.obj.live = False
        def h2w(m, a):
            for i in (0, 8):
                q = m.load_int(Ptr(a[0].obj, a[0].off + i), 8); m.check(q, 1, "read")
                m.fill(m.load_int(Ptr(a[2].obj, a[2].off + i), 8), 64)
            return 0
        def out(m, a):
            if any(isinstance(x, Undef) for x in a): raise Violation("uninitialised", "an uninitialised value is printed at %s" % m.where())
            return PUB
        s.externals.update(posix_memalign=memalign, malloc=lambda m, a: Ptr(m.heap(a[0])), free=free, prgn_random_bytes=rnd, fprintf=out, fputs=out, fputc=out, putc=out, fwrite=out, printf=out, sha512_2w_avx=h2w)
        for n in list(s.contracts):      # nothing is secret
            s.contracts[n] = (lambda f: lambda m, a: m.plain(f, a))(s.contracts[n])
    def plain(s, f, a):
        r = f(s, a); return r
    def fill(s, p, n):
        s.clear(p, n); s.check(p, n, "write")
        for i in range(n): p.obj.cells[p.off + i] = (PUB, 1)
    def heap(s, n): return s.new("heap", n if isinstance(n, int) else 1 << 62, "heap")
def obj(m, name, n): return Ptr(ct.secret(m, name, n, PUB))
def written(R_, m, p, n, what):
    k = [i for i in range(n) if not any(o <= i < o + z and not isinstance(v, Undef) for o, (v, z) in ((o, p.obj.cells[o]) for o in range(i, max(-1, i - 32), -1) if o in p.obj.cells))]
    if k: R_.bad("uninitialised:" + what, "byte %d of the result is not written" % k[0])
    else: R_.ok("%s is written completely" % what, "label propagation")
def run_misc(name, fn, make, post=None):
    """every public path of one call"""
    t0 = time.time(); R_ = Result(fn); sites = {}; n = 0; box = []
    def mk():
        m = MM(module()); a = make(m); box[:] = [m, a]; return m, a
    pend = [[]]
    while pend:
        m, a = mk(); m.decisions = pend.pop(); m.pending = []; n += 1
        if n > 400: raise Unsupported("more than 400 public paths in " + fn)
        r = m.call(fn, a); pend += m.pending
        if post: post(R_, m, a, r)
        for f, d in m.sites.items():
            e = sites.setdefault(f, {})
            for k, c in d.items(): e[k] = max(e.get(k, 0), c)
    for f, d in sorted(sites.items()):
        R_.ok("accesses in %s stay inside their objects (%d executed)" % (f, d.get("address", 0)), "label propagation")
    R_.wall = time.time() - t0; return R_
def t_alloc(slot, fn, size):
    def post(R_, m, a, r):
        if not isinstance(r, Ptr) or r.off != 0 or r.obj.size < size: R_.bad("memory:alloc", "%s returns %r, %d bytes are needed" % (slot, r, size))
        else: R_.ok("%s returns at least %d bytes" % (slot, size), "label propagation")
    return run_misc(slot, fn, lambda m: [], post)
def t_free(slot, fn, size):
    def post(R_, m, a, r):
        if isinstance(a[0], Ptr) and a[0].obj.live: R_.bad("memory:free", "%s does not free the object" % slot)
        else: R_.ok("%s frees the object" % slot, "label propagation")
    x = run_misc(slot, fn, lambda m: [Ptr(m.heap(size))], post); y = run_misc(slot, fn, lambda m: [0]); x.obs += y.obs; return x
def t_rand(slot, fn, size, exact):
    def post(R_, m, a, r):
        if exact: written(R_, m, a[0], size, slot)
    return run_misc(slot, fn, lambda m: [Ptr(m.new("key", size, "arg"))], post)
def t_print(slot, fn, size): return run_misc(slot, fn, lambda m: [obj(m, "FILE", 512), obj(m, "value", size)])
def t_h2c(fn):
    def post(R_, m, a, r): written(R_, m, a[0], 64, fn)
    return run_misc(fn, fn, lambda m: [Ptr(m.new("point", 64, "arg")), obj(m, "message", 1 << 62), PUB], post)
def t_bool(fn, n): return run_misc(fn, fn, lambda m: [obj(m, "point", 64) for _ in range(n)])
def misc_tasks():
    mod = module(); T = []; bad = []; want = []
    for t, v in (("25519", "Fp25519"), ("448", "Fp448")):
        for r, e in (("_1w_full", "EltFp%s_1w_fullradix"), ("_1w_red", "EltFp%s_1w_redradix"), ("_2w_red", "EltFp%s_2w_redradix"), ("_4w_red", "EltFp%s_4w_redradix")):
            for o in ("alloc", "free", "rand", "print"): want.append(("%s.%s.arith.misc.%s" % (v, r, o), o, "sizeof(%s)" % (e % t), False))
    for s, k in (("X25519", "X25519_KEY"), ("X25519_x64", "X25519_KEY"), ("X448", "X448_KEY")):
        for o in ("alloc", "free", "rand", "print"): want.append(("%s.%sKey" % (s, o), o, "sizeof(%s)" % k, True))
    for f in ("255", "448"):
        n = flow.SPEC[f]["n"]
        for a in flow.APIS[f]:
            for o in ("alloc", "free", "rand", "print"): want.append(("%s.%sKey" % (a.slot, o), o, str(n), True))
            for o in ("alloc", "free", "print"): want.append(("%s.%sSignature" % (a.slot, o), o, str(2 * n), True))
    sl = slots([w[0] for w in want])
    d = scratch(); c = os.path.join(d, "msz.c"); x = os.path.join(d, "msz")
    open(c, "w").write("#include <stdio.h>\n" + "".join('#include "%s"\n' % h for h in ("faz_fp_avx2.h", "faz_ecdh_avx2.h", "faz_eddsa_avx2.h")) + "int main(void){" + "".join('printf("%%zu\\n",(size_t)(%s));' % w[2] for w in want) + "return 0;}")
    r = subprocess.run(["gcc", "-w", "-mavx2"] + INC + [c, "-o", x], capture_output=True, text=True)
    if r.returncode: raise Unsupported("the public headers do not have the expected types:\n" + r.stderr[-1500:])
    sz = list(map(int, subprocess.run([x], capture_output=True, text=True).stdout.split())); seen = set()
    for (slot, o, _, exact), n in zip(want, sz):
        fn = resolve(mod, slot, sl[slot])
        if fn is None or (fn, o, n) in seen: continue
        seen.add((fn, o, n)); T.append({"alloc": (t_alloc, (slot, fn, n)), "free": (t_free, (slot, fn, n)), "rand": (t_rand, (slot, fn, n, exact)), "print": (t_print, (slot, fn, n))}[o])
    T += [(t_h2c, (fn,)) for fn in ("h2c25519_x64", "h2c25519_avx2") if fn in mod.funcs] + [(t_bool, (fn, n)) for fn, n in (("isOnCurve", 1), ("areEqual", 2)) if fn in mod.funcs]
    if "print_point" in mod.funcs: T.append((t_print, ("print_point", "print_point", 64)))
    return T

# ---------------------------------------------------------------- trials of the compiled code
DRIVER = r"""
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <immintrin.h>
#ifdef WITH_MEMCHECK
#include <valgrind/memcheck.h>
#define DEFINED(p, n) do { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { fprintf(stderr, "@@ undefined result\n"); } } while (0)
#else
#define DEFINED(p, n)
#endif
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
static uint64_t seed; static int mode;
static uint8_t rnd(void){ seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; return seed >> 56; }
static uint8_t *mk(size_t n, int out){ void *p = 0; uint8_t *q; if (!n) p = malloc(0); else if (posix_memalign(&p, 32, n)) exit(3); q = p; if (!out) for (size_t i = 0; i < n; i++) q[i] = mode == 1 ? 0 : mode == 2 ? 255 : rnd(); return q; }
typedef void (*F4)(void*, void*, void*, void*);
#define CALL(nm, x) fprintf(stderr, "@@ %s\n", nm); { x; }
#define FIELD(nm, f, z, inp, dz) CALL(nm, if (f) { void *a = mk(z, !(inp)); void *b = mk(z, 0); void *c = mk(z, 0); if (z % 32 == 0) { for (size_t i = 0; i < z; i += 8) { if (inp) ((uint64_t*)a)[i / 8] &= MASK; ((uint64_t*)b)[i / 8] &= MASK; ((uint64_t*)c)[i / 8] &= MASK; } } ((F4)(void*)(f))(a, b, c, 0); DEFINED(a, dz); free(a); free(b); free(c); })
int main(int argc, char **argv){
  (void)argc; seed = strtoull(argv[1], 0, 10); mode = atoi(argv[2]);
  static const int ml[] = {0, 1, 40, 111, 128, 200, 300}; size_t m = ml[seed % 7]; size_t cl = (seed >> 8) % 200;
%s
  return 0;
}
"""
def build_driver(memcheck):
    d = scratch(); c = os.path.join(d, "mem%d.c" % memcheck); x = os.path.join(d, "mem%d" % memcheck); b = []
    for s, n in (("X25519", 32), ("X25519_x64", 32), ("X448", 56)):
        b.append('CALL("%s.keygen", uint8_t *o = mk(%d, 1); uint8_t *k = mk(%d, 0); %s.keygen(o, k); DEFINED(o, %d); free(o); free(k))' % (s, n, n, s, n))
        b.append('CALL("%s.shared", uint8_t *o = mk(%d, 1); uint8_t *p = mk(%d, 0); uint8_t *k = mk(%d, 0); %s.shared(o, p, k); DEFINED(o, %d); free(o); free(p); free(k))' % (s, n, n, n, s, n))
        b.append('CALL("%s.randKey", uint8_t *o = mk(%d, 1); %s.randKey(o); DEFINED(o, %d); free(o))' % (s, n, s, n))
        b.append('CALL("%s.allocKey", uint8_t *o = %s.allocKey(); memset(o, 1, %d); %s.freeKey(o))' % (s, s, n, s))
    for f in ("255", "448"):
        n = flow.SPEC[f]["n"]
        for a in flow.APIS[f]:
            ctx = "x, cl, " if a.ctx else ""; s = a.slot
            b.append('CALL("%s.keygen", uint8_t *o = mk(%d, 1); uint8_t *k = mk(%d, 0); %s.keygen((void*)o, (void*)k); DEFINED(o, %d); free(o); free(k))' % (s, n, n, s, n))
            b.append('CALL("%s.sign and verify", uint8_t *o = mk(%d, 1); uint8_t *k = mk(%d, 0); uint8_t *p = mk(%d, 1); uint8_t *msg = mk(m, 0); uint8_t *x = mk(cl, 0); %s.keygen((void*)p, (void*)k); %s.sign((void*)o, (void*)msg, m, %s(void*)p, (void*)k); DEFINED(o, %d); if (mode == 3) o[0] ^= 1; %s.verify((void*)msg, m, %s(void*)p, (void*)o); free(o); free(k); free(p); free(msg); free(x))' % (s, 2 * n, n, n, s, s, ctx, 2 * n, s, ctx))
            b.append('CALL("%s.allocSignature", uint8_t *o = %s.allocSignature(); memset(o, 1, %d); %s.freeSignature(o); o = %s.allocKey(); memset(o, 1, %d); %s.freeKey(o))' % (s, s, 2 * n, s, s, n, s))
            b.append('CALL("%s.randKey", uint8_t *o = mk(%d, 1); %s.randKey(o); DEFINED(o, %d); free(o))' % (s, n, s, n))
    for h in ("h2c25519_x64", "h2c25519_avx2"): b.append('CALL("%s", Point *P = (Point*)mk(64, 1); uint8_t *msg = mk(m, 0); %s(P, msg, m); DEFINED(P, 64); free(P); free(msg))' % (h, h))
    for t, v, rs in (("25519", "Fp25519", 26), ("448", "Fp448", 28)):
        for r, k in (("_1w_full", "1w_fullradix"), ("_1w_red", "1w_redradix"), ("_2w_red", "2w_redradix"), ("_4w_red", "4w_redradix")):
            ty = "EltFp%s_%s" % (t, k); dz = (5 if t == "25519" else 8) * {"_1w_red": 16, "_2w_red": 32, "_4w_red": 64}.get(r, 0) or (32 if t == "25519" else 56); b.append("#undef MASK\n#define MASK %s" % ("~0ULL" if r == "_1w_full" else "((1ULL << %d) - 1)" % (25 if t == "25519" else 28)))
            for o in ("add", "mul", "sub", "neg", "sqr", "inv", "srt", "prime"):
                if o in ("inv", "srt", "prime") and r not in ("_1w_full", "_1w_red") or o == "srt" and t == "448": continue
                b.append('FIELD("%s.%s.arith.%s", %s.%s.arith.%s, sizeof(%s), %d, %d)' % (v, r, o, v, r, o, ty, o in ("neg", "sqr"), dz))
            for o in ("copy", "zero"): b.append('FIELD("%s.%s.arith.misc.%s", %s.%s.arith.misc.%s, sizeof(%s), 0, %d)' % (v, r, o, v, r, o, ty, dz))
            b.append('CALL("%s.%s.arith.misc.alloc", if (%s.%s.arith.misc.alloc) { void *a = %s.%s.arith.misc.alloc(); memset(a, 1, sizeof(%s)); %s.%s.arith.misc.free(a); })' % ((v, r) * 3 + (ty, v, r)))
            if r in ("_1w_full", "_1w_red"):
                n = 32 if t == "25519" else 56
                b.append('CALL("%s.%s.arith.misc.ser", uint8_t *a = mk(%d, 1); uint64_t *e = (uint64_t*)mk(sizeof(%s), 0); for (unsigned i = 0; i < sizeof(%s) / 8; i++) e[i] &= MASK; %s.%s.arith.misc.ser(a, (void*)e); DEFINED(a, %d); %s.%s.arith.misc.unser((void*)e, a); DEFINED(e, %d); free(a); free(e))' % (v, r, n, ty, ty, v, r, n, v, r, dz))
    open(c, "w").write(DRIVER.replace("%s\n  return", "\n".join("  " + y if not y.startswith("#") else y for y in b) + "\n  return"))
    tp = os.path.join(ir.REPO, "third_party"); fl = [y for y in PROJ_CFLAGS if not y.startswith(("-march", "-mtune", "-std", "-pedantic", "-O"))] + ["-std=gnu99", "-g", "-madx"]
    fl += ["-O2", "-march=haswell", "-DWITH_MEMCHECK"] if memcheck else ["-O1", "-march=native", "-fsanitize=address", "-fomit-frame-pointer"]
    src = [os.path.join(ir.REPO, "src", "target.c")] + [os.path.join(tp, y) for y in sorted(os.listdir(tp)) if y.endswith(".c")]
    r = subprocess.run(["gcc"] + fl + INC + ["-o", x, c] + src, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("gcc failed\n" + r.stderr[-2000:])
    return x
def replay(seconds=60):
    """AddressSanitizer (stack, heap, constants) and memcheck (uninitialised data in results) on exactly sized buffers"""
    end = time.time() + seconds; B = []
    for mc in (0, 1):
        try: B.append((mc, build_driver(mc)))
        except RuntimeError as e:
            if mc: raise
            print("no sanitised build: %s" % str(e)[-300:], file=sys.stderr)
    k = 0
    while time.time() < end or k < 4:
        for mc, x in B:
            if mc and k % 4: continue
            cmd = (["valgrind", "--tool=memcheck", "--error-limit=no", "--error-exitcode=99"] if mc else []) + [x, str(7 * k + 1), str(k % 4)]
            try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=max(60, end - time.time()), errors="replace", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98"))
            except subprocess.TimeoutExpired: return None
            if r.returncode or "@@ undefined" in r.stderr:
                ent = "?"; ls = r.stderr.splitlines()
                for i, l in enumerate(ls):
                    if l.startswith("@@ ") and not l.startswith("@@ undefined"): ent = l[3:]
                    if "ERROR: " in l and "Sanitizer" in l or "@@ undefined" in l or mc and ("Invalid" in l or "ninitialised" in l) and "ERROR SUMMARY" not in l:
                        return dict(entry=ent, driver_arguments=[7 * k + 1, k % 4], inputs=["random", "zeros", "ones", "random, altered signature"][k % 4], observed=" | ".join(z.strip() for z in ls[i:i + 6]))
                return dict(entry=ent, driver_arguments=[7 * k + 1, k % 4], observed="exit %d: %s" % (r.returncode, r.stderr[-500:]))
        k += 1
    return None

def C26(tier):
    t0 = time.time(); got = collect(PARTS); misc = core.run_all(misc_tasks()); got.append(("C26", misc))
    seen = set(); res = []; ran = set(); partial = []
    lab = set()          # functions in which every access has been executed by the label machine
    for pid, rs in got:
        if pid in ("C25", "C26"):
            for r in rs:
                if not r.fail and not r.unsup: lab |= set(o[0].split(" in ")[1].split(" does")[0].split(" stay")[0].split(":")[-1] for o in r.obs if " in " in o[0])
    for pid, rs in got:
        for r in rs:
            if id(r) in seen: continue
            seen.add(id(r)); q = Result(r.fn); q.wall = getattr(r, "wall", 0); q.trusted = r.trusted; ran |= set(getattr(r, "ran", ()))
            stop = bool(getattr(r, "viol", None) is not None or r.unsup)
            for n, m in r.fail:
                if n.split(":")[0] in KINDS: q.bad(n, m)
                elif n.startswith("secret-"): partial.append((r, n))
                elif hasattr(r, "viol"):      # the analysis stopped at an obligation of another property
                    if r.fn in lab: partial.append((r, n))
                    else: q.unsup.append("the memory obligations after a failed obligation of %s are not decided: %s: %s" % (pid, n, m[:200]))
                else: partial.append((r, n))
            for u in r.unsup:
                if r.fn in lab: partial.append((r, u))
                else: q.unsup.append(u)
            if not q.fail and not q.unsup: q.ok("memory accesses, initialisation and declared effects of %s" % r.fn, "bounds by intervals and exact integer arithmetic (%d obligations of the contract)" % max(1, len(r.obs)) if False else "memory obligations of the verification", 0.0)
            res.append(q)
    mod = module(); live = set(f for f in mod.funcs if f not in ran)
    return finish("C26", tier, t0, res, "proof", check.TRUST + checks.FLOW[1:2] + [
        "operands are distinct objects of their documented size, except where the contracts of C01-C05 permit overlap", "memory allocation succeeds",
        "hash functions: an address computed from a member of the hash state stays in that member (labels); their data and digest pointers are checked at every call",
        "reads of constant tables by a secret digit are complete scans; reads by a public digit are in range by the recoding invariants of C13"],
        lambda rs: replay(90 if rs else 25), functions=sorted(ran), notes="25 s of calls of the compiled library under AddressSanitizer and memcheck with exactly sized buffers (bounded supplement). Functions of the library not executed: %s" % (", ".join(sorted(live)) or "none"), always=True,
        extra=dict(functional_obligations_that_failed=[("%s: %s" % (r.fn, n))[:200] for r, n in partial][:20]))
