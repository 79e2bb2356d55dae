"""Replay of contracts on the code as the project compiles it (gcc, project flags).

Used only after an obligation failed or could not be decided: it searches for a concrete input, within
the contract's precondition, on which the compiled code breaks the contract."""
import os, sys, subprocess, ctypes, random, json, time, tempfile, signal
from . import core, ir
from .fld import *

SHIM = r'''
#include <immintrin.h>
#include <stdint.h>
typedef void (*vf_fv)(__m256i, void*, void*, void*);
__attribute__((visibility("default"))) void vf_call_vec(void *f, void *bit, void *c, void *a, void *b) {
  ((vf_fv)f)(_mm256_loadu_si256((__m256i*)bit), c, a, b); }
typedef __m256i (*vf_rv2)(void*, void*);
__attribute__((visibility("default"))) void vf_ret_vec2(void *f, void *out, void *a, void *b) {
  _mm256_storeu_si256((__m256i*)out, ((vf_rv2)f)(a, b)); }
typedef __m256i (*vf_rv1)(void*);
__attribute__((visibility("default"))) void vf_ret_vec1(void *f, void *out, void *a) {
  _mm256_storeu_si256((__m256i*)out, ((vf_rv1)f)(a)); }
'''
_lib = None
def library(extra_src=""):
    """shared object of the project sources, built exactly as the project builds them"""
    global _lib
    if _lib is not None: return _lib
    d = core.scratch(); objs = []
    tp = os.path.join(ir.REPO, "third_party")
    srcs = [os.path.join(ir.REPO, "src", "target.c")] + [os.path.join(tp, f) for f in sorted(os.listdir(tp)) if f.endswith(".c")]
    sh = os.path.join(d, "shim.c"); open(sh, "w").write(SHIM + extra_src); srcs.append(sh)
    procs = []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "n%d.o" % i); objs.append(o)
        procs.append((s, subprocess.Popen(["gcc"] + core.PROJ_CFLAGS + core.INC + ["-c", s, "-o", o], stderr=subprocess.PIPE, text=True)))
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise RuntimeError("gcc failed on %s\n%s" % (s, e[-2000:]))
    so = os.path.join(d, "code.so")
    r = subprocess.run(["gcc", "-shared", "-o", so] + objs, capture_output=True, text=True)
    if r.returncode: raise RuntimeError(r.stderr[-2000:])
    _lib = so
    return so

class Buf:
    """aligned buffer with guard bytes on both sides"""
    G = 96
    def __init__(s, n):
        s.n = n; s.raw = (ctypes.c_uint8 * (n + 2 * s.G + 64))()
        a = ctypes.addressof(s.raw) + s.G; s.addr = (a + 31) // 32 * 32
        ctypes.memset(ctypes.addressof(s.raw), 0xA5, n + 2 * s.G + 64)
    def set(s, b): ctypes.memmove(s.addr, bytes(b), len(b))
    def get(s): return ctypes.string_at(s.addr, s.n)
    def guards(s):
        lo = ctypes.addressof(s.raw); r = bytes(s.raw); i = s.addr - lo
        return all(x == 0xA5 for x in r[:i]) and all(x == 0xA5 for x in r[i + s.n:])
    @property
    def p(s): return ctypes.c_void_p(s.addr)

def in_child(fn, timeout=60):
    """run fn(report) in a child; report(obj) records the input about to be tried. Returns (found, crashed_input)"""
    f = tempfile.NamedTemporaryFile(dir=core.scratch(), delete=False); cur = f.name + ".cur"; f.close()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL); signal.alarm(timeout)
            def report(o): open(cur, "w").write(json.dumps(o, default=str))
            r = fn(report)
            if r is not None: open(f.name, "w").write(json.dumps(r, default=str))
        except BaseException as e:
            print("replay child: %r" % e, file=sys.stderr); code = 3
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    r = open(f.name).read()
    if r: return json.loads(r)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) != signal.SIGALRM:
        c = json.loads(open(cur).read()) if os.path.exists(cur) else {}
        return dict(crash="signal %d" % os.WTERMSIG(st), input=c)
    return None

def pick(rng, hi):
    m = rng.random()
    if m < 0.15: return 0
    if m < 0.35: return hi
    if m < 0.45: return max(0, hi - rng.randrange(4))
    if m < 0.5: return min(hi, rng.randrange(40))
    if m < 0.6: return min(hi, (1 << rng.randrange(64)) - rng.randrange(2))
    return rng.randrange(hi + 1)

def spec_trials(spec, al, off, n, seed):
    so = library(); p = spec.f.p
    def run(report):
        lib = ctypes.CDLL(so); rng = random.Random(seed)
        g = spec.slot.split(".")[0]
        base = ctypes.addressof(ctypes.c_uint8.in_dll(lib, g))
        fp = ctypes.c_void_p.from_address(base + off).value
        if not fp: return dict(reason="the interface slot %s is empty" % spec.slot)
        for t in range(n):
            objs = [None] * len(al); vals = [None] * len(al); call = []; vec = None; dig = {}
            for i, (role, rep) in enumerate(spec.args):
                if role == "bit":
                    b = rng.randrange(2); vals[i] = [b]; call.append(ctypes.c_int(b)); continue
                if role == "vbit":
                    vals[i] = [rng.randrange(2) for _ in range(rep.lanes)]; per = 4 // rep.lanes
                    vec = b"".join((b"\xff" if vals[i][k // per] else b"\0") * 8 for k in range(4)); continue
                if al[i] != i: objs[i] = objs[al[i]]
                else: objs[i] = Buf(rep.size)
                call.append(objs[i].p)
            mode = rng.randrange(4)
            for i, (role, rep) in enumerate(spec.args):
                if rep is None or objs[i] is None or al[i] != i: continue
                js = [j for j in range(len(al)) if al[j] == i and spec.args[j][0] in ("in", "io")]
                ctypes.memset(objs[i].addr, 0x5A, rep.size)
                if not js: continue
                pres = [spec.pre[j] for j in js if spec.pre.get(j)]
                v = []; raw = bytearray(objs[i].get()); ds = []
                for l in range(rep.lanes):
                    x = 0
                    for k in range(rep.n):
                        hi = min((q[k] for q in pres), default=2**64 - 1)
                        d = hi if mode == 0 else pick(rng, hi)
                        if rep.name == "full" and mode == 1:
                            d = (p >> 64 * k & (2**64 - 1)) if k else (p + rng.randrange(-3, 40)) & (2**64 - 1)
                        o = rep.off(l, k); raw[o:o + 8] = d.to_bytes(8, "little"); ds.append(hex(d)); x += d << rep.weights[k]
                    v.append(x)
                objs[i].set(raw); vals[i] = v; dig[i] = ds
            for i in range(len(al)):
                if spec.args[i][0] in ("in", "io") and vals[i] is None: vals[i] = vals[al[i]]
            report(dict(function=spec.slot, alias=al, digits=dig))
            frame = {i: objs[i].get() for i, (r, _) in enumerate(spec.args) if r == "in"
                     and not any(al[j] == al[i] and spec.args[j][0] in ("out", "io") for j in range(len(al)))}
            if vec is not None:
                vb = Buf(32); vb.set(vec)
                lib.vf_call_vec(ctypes.c_void_p(fp), vb.p, *call)
            else: ctypes.CFUNCTYPE(None)(fp)(*call) if False else _call(fp, call)
            exp = spec.post(*[vals[i] for i, (r, _) in enumerate(spec.args) if r != "out"])
            outs = [i for i, (r, _) in enumerate(spec.args) if r in ("out", "io")]
            why = None
            for k, i in enumerate(outs):
                rep = spec.args[i][1]; raw = objs[i].get()
                for l in range(rep.lanes):
                    ds = [int.from_bytes(raw[rep.off(l, q):rep.off(l, q) + 8], "little") for q in range(rep.n)]
                    v = sum(d << w for d, w in zip(ds, rep.weights)); e = exp[k][l]
                    if (v != e) if spec.exact else (v - e) % p: why = "argument %d lane %d: got %#x expected %#x%s" % (i, l, v, e if spec.exact else e % p, "" if spec.exact else " mod p (got mod p %#x)" % (v % p))
                    b = spec.bound.get(i)
                    if b and any(d > q for d, q in zip(ds, b)): why = "argument %d lane %d: digits %s exceed the guaranteed bounds" % (i, l, [hex(d) for d in ds])
            for i, b in frame.items():
                if objs[i].get() != b: why = "input argument %d is modified" % i
            for i, o in enumerate(objs):
                if o is not None and not o.guards(): why = "bytes outside argument %d are written" % i
            if why: return dict(function=spec.slot, alias=al, digits=dig, bits=[v for (r, _), v in zip(spec.args, vals) if r in ("bit", "vbit")], result=why)
        return None
    return in_child(run)
def _call(fp, args):
    f = ctypes.CFUNCTYPE(None, *[type(a) for a in args])(fp)
    f(*args)

def fieldspec_replay(tasks, seconds=60, n=3000):
    """tasks: list of (spec, alias, slot offset); first failing input found or None"""
    t0 = time.time()
    for r in range(4):
        for spec, al, off in tasks:
            if time.time() - t0 > seconds: return None
            x = spec_trials(spec, al, off, n, 1000 * r + 1)
            if x: return x
    return None
