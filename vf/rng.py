"""Random keys come entirely from the operating system (C27).

Contract of prgn_random_bytes(buffer, n), for every n and every sequence of results of open and read: on return every byte of
buffer has been written by read from the random device; otherwise the process is ended (the function has no result to report a
failure with).  Assumed contract of read(fd, p, k): returns -1 and writes nothing, or writes the first c bytes at p and returns
c, 0 <= c <= min(k, 0x7ffff000); with a descriptor of a failed open it returns -1.  Ghost state: F, the length of the prefix of
the buffer that is filled with random bytes.  Loops are cut at their heads; the invariant is found by Houdini among affine
relations x = x0 + k*(F - F0), k in {0, 1, -1}, for every variable and memory cell."""
import time, z3
from .core import *
from .bv import *
from . import ct, flow

class Restart(Exception): pass
class Stop(Exception): pass
DEVICES = (b"/dev/urandom", b"/dev/random")
class RM(BVM):
    def __init__(s, mod, tmpl):
        super().__init__(mod); s.tmpl = tmpl; s.onblock = RM.head; s.cut_at = {}; s.fds = {}; s.files = {}
        s.N = z3.BitVec("n", 64); s.assume(z3.ULT(s.N, 1 << 62)); s.F = 0
        s.buf = s.new("buffer", 1 << 62, "arg"); s.sizes[id(s.buf)] = s.N; s.err = s.new("errno", 4, "global"); s.acts = []
        s.frame_envs = []
        def end(m, a): raise Stop()
        E = s.externals
        for n in ("abort", "exit", "_exit", "__assert_fail", "quick_exit", "_Exit"): E[n] = end
        for n in ("printf", "puts", "fprintf", "fputs", "perror", "fputc", "fwrite", "putchar", "fflush", "syslog", "close", "fclose"): E[n] = lambda m, a: m.fresh("ret", 32)
        E["__errno_location"] = lambda m, a: Ptr(m.err)
        E["strerror"] = lambda m, a: Ptr(m.new("message", 64, "global"))
        E["open"] = E["open64"] = RM.x_open; E["read"] = RM.x_read; E["fopen"] = E["fopen64"] = RM.x_fopen; E["fread"] = RM.x_fread; E["getrandom"] = RM.x_getrandom
        E["memset"] = lambda m, a: (m.memset(*a[:3]), a[0])[1]
    # ---- contracts of the operating system
    def path(s, p):
        b = bytearray(); o = p.off
        while True:
            v = s.load_int(Ptr(p.obj, o), 1)
            if not isinstance(v, int): raise Unsupported("unknown path at %s" % s.where())
            if v == 0: return bytes(b)
            b.append(v); o += 1
    def source(s, a):
        return s.path(a) in DEVICES
    def x_open(s, a):
        fd = s.fresh("fd", 32); s.assume(fd >= -1); s.fds[fd.get_id()] = (fd, s.source(a[0])); s.seterr(); return fd
    def x_fopen(s, a):
        ok = s.fresh("fopen", 1)
        if not s.truth(ok): s.seterr(); return 0
        o = s.new("FILE", 216, "heap"); s.files[id(o)] = s.source(a[0]); return Ptr(o)
    def seterr(s): s.err.cells.clear(); s.err.cells[0] = (s.fresh("errno", 4 * 8), 4)
    def fill(s, p, k, c, random):
        """bytes [p, p+c) have been written, c <= k"""
        s.range_ok(p, k, "write")
        if p.obj is s.buf: s.filled(p.off, c, random)
        else: raise Unsupported("random bytes are read into another buffer at %s" % s.where())
    def filled(s, off, c, random):
        o = bv(off, 64); F = bv(s.F, 64); e = o + c
        if random: s.F = simp(z3.If(z3.And(z3.ULE(o, F), z3.UGT(e, F)), e, F))
        else: s.F = simp(z3.If(z3.And(c != 0, z3.ULT(o, F)), o, F))
    def transfer(s, name, p, k, random):
        k = bv(k, 64); c = s.fresh(name, 64); s.assume(z3.Or(c == -1, z3.And(z3.ULE(c, k), z3.ULE(c, 0x7ffff000))))
        s.fill(p, k, simp(z3.If(c == -1, z3.BitVecVal(0, 64), c)), random); s.seterr(); return c
    def x_read(s, a):
        fd, p, k = a[:3]; known = s.fds.get(fd.get_id()) if isinstance(fd, BV) else None
        if known is None:
            for f, r in s.fds.values():
                if isinstance(fd, (BV, int)) and s.valid(bv(fd, 32) == f): known = (f, r)
        c = s.transfer("read", p, k, bool(known and known[1]))
        if isinstance(fd, (BV, int)): s.assume(z3.Implies(bv(fd, 32) < 0, c == -1)); s.F = simp(s.F) if isinstance(s.F, BV) else s.F
        return c
    def x_getrandom(s, a): return s.transfer("getrandom", a[0], a[1], True)
    def x_fread(s, a):
        p, sz, k, f = a; r = isinstance(f, Ptr) and s.files.get(id(f.obj), False)
        if not isinstance(f, Ptr): raise Violation("memory", "fread from %r at %s" % (f, s.where()))
        c = s.fresh("fread", 64); k = bv(k, 64); sz = bv(sz, 64); s.assume(z3.ULE(c, k)); s.fill(p, simp(k * sz), simp(c * sz), r); return c
    # ---- direct writes destroy random bytes
    def memset(s, d, v, n):
        s.range_ok(d, n, "write")
        if d.obj is s.buf: s.filled(d.off & (1 << 64) - 1 if isinstance(d.off, int) else d.off, bv(n, 64), False); return
        if isinstance(n, int) and isinstance(d.off, int): return super().memset(d, v, n)
        raise Unsupported("memset of unknown length at %s" % s.where())
    def store_int(s, p, n, v):
        if p.obj is s.buf if isinstance(p, Ptr) else False: s.check(p, n, "write"); s.filled(p.off, bv(n, 64), False); return
        super().store_int(p, n, v)
    def bvstore(s, p, ty, v):
        n = ir.size_of(ty); s.check(p, n, "write")
        if p.obj is s.buf: s.filled(p.off, bv(n, 64), False)
        else: raise Unsupported("store at a symbolic address at %s" % s.where())
    def intrinsic(s, name, x, env):
        if name[5:].startswith("memset"):
            a = [s.val(env, v, t) for t, v in x.a]; s.memset(*a[:3]); return None
        return super().intrinsic(name, x, env)
    # ---- loops
    def run(s, f, args):
        s.acts.append(s.nact); s.nact += 1
        try: return super().run(f, args)
        finally: s.acts.pop()
    nact = 0
    def cells(s): return [(i, o) for i, o in enumerate(s.objs) if o.live and not o.const and o is not s.buf]
    def locs(s, env, widths):
        """every variable and cell: name -> (value, width)"""
        L = {}
        for n, v in env.items(): L["var", n] = (v, widths.get(n))
        for i, o in s.cells():
            for off, (v, z) in o.cells.items(): L["cell", i, off] = (v, 8 * z)
        return L
    def widths(s, f):
        W = {n: (t.w if t.k == "int" else 64) for t, n in f.params if t.k in ("int", "ptr")}
        for b in f.blocks.values():
            for x in b:
                if x.res is None: continue
                t = x.ty
                if x.op == "icmp": W[x.res] = 1
                elif x.op in ("getelementptr", "alloca", "inttoptr"): W[x.res] = 64
                elif t is not None and t.k == "int": W[x.res] = t.w
                elif t is not None and t.k == "ptr": W[x.res] = 64
        return W
    def plus(s, v, k, dF, w):
        if k == 0: return v
        if isinstance(v, Ptr): return s.mkptr(v.obj, simp(bv(v.off & (1 << 64) - 1 if isinstance(v.off, int) else v.off, 64) + k * dF))
        d = dF if w == 64 else z3.Extract(w - 1, 0, dF)
        return simp(bv(v, w) + k * d)
    def same(s, a, b, w):
        if isinstance(a, Undef) and isinstance(b, Undef): return True
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and (a.off == b.off if isinstance(a.off, int) and isinstance(b.off, int) else s.valid(bv(a.off & (1 << 64) - 1 if isinstance(a.off, int) else a.off, 64) == bv(b.off & (1 << 64) - 1 if isinstance(b.off, int) else b.off, 64)))
        if isinstance(a, (int, BV)) and isinstance(b, (int, BV)) and w: return (a == b) if isinstance(a, int) and isinstance(b, int) else s.valid(bv(a, w) == bv(b, w))
        return a is b or a == b
    def head(s, f, env, blk):
        loops = heads(s.m, f)
        if blk not in loops: return
        key = (f.name, blk); act = (s.acts[-1], blk); W = s.widths(f); mod_ = loops[blk]
        if act not in s.cut_at:
            L = s.locs(env, W)
            if s.tmpl.get("guess"): s.cut_at[act] = (L, bv(s.F, 64)); return
            T = s.tmpl.get(key, {}); F0 = s.F
            F1 = bv(F0, 64)
            if not T.get("F"): F1 = s.fresh("F", 64); s.assume(z3.And(z3.UGE(F1, bv(F0, 64)), z3.ULE(F1, s.N)))
            dF = simp(F1 - bv(F0, 64)); s.F = F1
            for loc, (v, w) in L.items():
                if loc[0] == "var" and loc[1] not in mod_: continue
                k = T.get(loc, (0,))[:1]
                if k == (0,): continue
                nv = s.plus(v, k[0], bv(dF, 64), w) if k else s.fresh("u", w) if w and not isinstance(v, (Ptr, Undef)) else None
                if nv is None: raise Unsupported("no invariant for %s of %s" % (loc, f.name))
                if loc[0] == "var": env[loc[1]] = nv
                else: s.objs[loc[1]].cells[loc[2]] = (nv, w // 8)
            s.cut_at[act] = (s.locs(env, W), F1); return
        L0, F1 = s.cut_at[act]; L = s.locs(env, W); dF = bv(simp(bv(s.F, 64) - F1), 64); T = s.tmpl.setdefault(key, {}); again = False
        if not s.tmpl.get("guess") and not s.valid(z3.And(z3.UGE(bv(s.F, 64), F1), z3.ULE(bv(s.F, 64), s.N))): raise Violation("invariant:filled", "random bytes are overwritten in the loop of %s [%s]" % (f.name, s.cex))
        if s.tmpl.get("guess"): T["F"] = T.get("F", True) and s.valid(dF == 0)
        elif T.get("F") and not s.valid(dF == 0): T["F"] = False; raise Restart()
        for loc, (v0, w) in L0.items():
            if loc[0] == "var" and loc[1] not in mod_ or loc not in L: continue
            v = L[loc][0]; K = T.get(loc, (0, 1, -1)); M = tuple(k for k in (K if s.tmpl.get("guess") else K[:1]) if s.same(v, s.plus(v0, k, dF, w) if k == 0 or isinstance(v0, (int, BV, Ptr)) else None, w))
            if M: s.obl.append(("invariant:%s of %s" % (loc[1] if loc[0] == "var" else "cell %d+%d" % loc[1:], f.name), 0.0))
            elif K: again = True
            T[loc] = M if s.tmpl.get("guess") or not M else K
        if again and not s.tmpl.get("guess"): raise Restart()
        raise Stop()
def heads(mod, f):
    """loop heads of f -> variables that change in the loop (results of phis at the head)"""
    if hasattr(f, "_heads"): return f._heads
    ir.body(mod, f); succ = {}
    for b, ins in f.blocks.items():
        x = ins[-1]; succ[b] = [x.a[0]] if x.op == "br" else [x.a[1], x.a[2]] if x.op == "cbr" else [l for _, l in x.a[2]] + [x.a[1]] if x.op == "switch" else []
    H = set(); st = {}; todo = [(f.order[0], iter(succ[f.order[0]]))]; st[f.order[0]] = 1
    while todo:
        b, it = todo[-1]
        for n in it:
            if st.get(n) == 1: H.add(n)
            elif n not in st: st[n] = 1; todo.append((n, iter(succ.get(n, [])))); break
        else: st[b] = 2; todo.pop()
    f._heads = {h: set(x.res for x in f.blocks[h] if x.op == "phi") for h in H}
    return f._heads

FUNC = "prgn_random_bytes"
def verify():
    t0 = time.time(); R_ = Result(FUNC); mod = module("third_party/prng.c"); tmpl = {}
    if FUNC not in mod.funcs: R_.bad("interface:" + FUNC, "the function is missing"); R_.wall = 0; return R_
    for rnd in range(60):
        pend = [[]]; obl = []; n = 0; acc = 0; tmpl["guess"] = rnd == 0  # round 0: which relations hold after one turn of each loop
        try:
            while pend:
                m = RM(mod, tmpl); m.decisions = pend.pop(); m.pending = []; n += 1
                if n > 300: raise Unsupported("too many paths")
                try:
                    m.call(FUNC, [Ptr(m.buf), m.N])
                    m.prove("post:filled", bv(m.F, 64) == m.N, "the function returns although not every byte is random")
                    obl.append(("post: on return all bytes are random (path %d)" % n, 0.0))
                except Stop: obl.append(("path %d ends the process or closes a loop" % n, 0.0))
                obl += m.obl; acc += m.access_checks; pend += m.pending
            if rnd: break
        except Restart: continue
    else: raise Unsupported("no invariant")
    for nm, t in obl: R_.ok(nm, "z3 bit vectors", t)
    R_.notes.append("%d paths, %d rounds of Houdini" % (n, rnd + 1)); R_.wall = time.time() - t0
    return R_

# ---------------------------------------------------------------- the functions that make keys
class KM(ct.CTM):
    def __init__(s, mod):
        super().__init__(mod)
        def rnd(m, a):
            if not isinstance(a[1], int) or not isinstance(a[0], Ptr) or not isinstance(a[0].off, int): raise Unsupported("random bytes of unknown number or place")
            m.clear(a[0], a[1]); m.check(a[0], a[1], "write"); m.site("random")
            for i in range(a[1]): m.nr += 1; a[0].obj.cells[a[0].off + i] = (ct.Label("RND%d" % m.nr), 1)
        s.nr = 0; s.externals["prgn_random_bytes"] = rnd
def verify_rand(slot, fn, n):
    t0 = time.time(); R_ = Result(fn); pend = [[]]; k = 0
    while pend:
        m = KM(module()); m.decisions = pend.pop(); m.pending = []; k += 1
        o = m.new("key", n, "arg"); m.call(fn, [Ptr(o)]); pend += m.pending; seen = set()
        for i in range(n):
            c = o.cells.get(i); v = c[0] if c and c[1] == 1 else None
            if not isinstance(v, ct.Label) or not v.n.startswith("RND"): R_.bad("post:random", "byte %d of the key of %s is not a random byte" % (i, slot)); break
            if v.n in seen: R_.bad("post:random", "byte %d of the key of %s repeats another byte" % (i, slot)); break
            seen.add(v.n)
        else: R_.ok("all %d bytes of the key of %s are random bytes (path %d)" % (n, slot, k), "symbolic execution")
        if k > 100: raise Unsupported("too many paths in " + fn)
    R_.wall = time.time() - t0; return R_
def tasks():
    mod = module(); L = [("X25519", 32), ("X25519_x64", 32), ("X448", 56)] + [(a.slot, flow.SPEC[f]["n"]) for f in ("255", "448") for a in flow.APIS[f]]
    sl = slots([s + ".randKey" for s, _ in L]); T = []; bad = []
    for s, n in L:
        fn = resolve(mod, s + ".randKey", sl[s + ".randKey"])
        if fn is None: r = Result(s); r.bad("interface:%s.randKey" % s, "the interface slot is empty"); r.wall = 0; bad.append(r)
        else: T.append((verify_rand, (s, fn, n)))
    return [(verify, ())] + T, bad

# ---------------------------------------------------------------- trials of the compiled code
DRIVER = r"""
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/wait.h>
static int sched[64], ns, pos, openfail, bad;
static uint8_t *base; static size_t total;
static int f_open(const char *p, int fl, ...) { if (openfail) { errno = ENOENT; return -1; } return strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random") ? 5 : 7; }
static ssize_t f_read(int fd, void *b, size_t n) {
  if (fd < 0) { errno = EBADF; return -1; }
  uint8_t *q = b; if (q < base || q + n > base + total || n > total) { bad = 1; errno = EFAULT; return -1; }
  int r = pos < ns ? sched[pos++] : 1000000;
  if (r < 0) { errno = r == -1 ? EINTR : EIO; return -1; }
  size_t c = (size_t)r < n ? (size_t)r : n; if (r == 0 && pos >= ns) c = n;
  memset(b, fd == 7 ? 0xA5 : 0x11, c); return c;
}
static int f_close(int fd) { return 0; }
#define open f_open
#define read f_read
#define close f_close
#define main other_main
#include PRNG
#undef main
#undef open
#undef read
#undef close
int main(int argc, char **argv) {
  size_t n = atoi(argv[1]); openfail = atoi(argv[2]); for (int i = 3; i < argc && ns < 64; i++) sched[ns++] = atoi(argv[i]);
  base = malloc(n + 64); total = n; memset(base, 0, n + 64); fflush(stdout);
  pid_t p = fork();
  if (p == 0) { alarm(2); freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); prgn_random_bytes(base, n); if (bad) _exit(42); for (size_t i = 0; i < n; i++) if (base[i] != 0xA5) _exit(41); for (int i = 0; i < 64; i++) if (base[n + i]) _exit(42); _exit(40); }
  int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { printf("returns with bytes that are not random\n"); return 1; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { printf("reads outside the buffer\n"); return 1; }
  return 0;
}
"""
def replay(seconds=30):
    import random
    d = scratch(); c = os.path.join(d, "rngd.c"); x = os.path.join(d, "rngd"); open(c, "w").write(DRIVER)
    r = subprocess.run(["gcc", "-O2", "-w", "-D_GNU_SOURCE", '-DPRNG="%s"' % os.path.join(ir.REPO, "third_party", "prng.c")] + INC + [c, "-o", x], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("gcc failed\n" + r.stderr[-1000:])
    g = random.Random(1); end = time.time() + seconds; k = 0
    while time.time() < end and k < 2000:
        n = g.choice([1, 16, 32, 56, 57, 300]); of = int(k % 9 == 0); s = [g.choice([-1, -2, 0, 1, 5, 31, 1000]) for _ in range(g.randrange(5))]; k += 1
        r = subprocess.run([x, str(n), str(of)] + list(map(str, s)), capture_output=True, text=True)
        if r.returncode == 1: return dict(function=FUNC, number_of_bytes=n, open_fails=bool(of), results_of_read=s, meaning="-1: EINTR, -2: EIO, 0: end of file, k: at most k bytes; afterwards complete", observed=r.stdout.strip())
    return None
