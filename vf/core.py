"""Obligations, workers, evidence and verdicts shared by all checks."""
import os, sys, json, time, tempfile, shutil, subprocess, traceback, signal
from . import ir, exe
from .ir import Unsupported
from .exe import Machine, Violation, Obj, Ptr, Fn
from .poly import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None: SCRATCH = tempfile.mkdtemp(prefix="vf_")
    return SCRATCH
def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH): shutil.rmtree(SCRATCH, ignore_errors=True)

PROJ_CFLAGS = ["-O3", "-pedantic", "-std=c99", "-m64", "-mavx2", "-mbmi2", "-march=native", "-mtune=native", "-fPIC", "-w"]
INC = ["-I" + os.path.join(ir.REPO, d) for d in ("include", "src", "third_party")]

_mod = {}
def module(src="src/target.c"):
    if src not in _mod:
        _mod[src] = ir.parse(ir.build_ir(src, scratch()))
    return _mod[src]

def slots(paths):
    """offsets of interface members, measured with the project's own headers"""
    d = scratch(); src = os.path.join(d, "slots%d.c" % os.getpid())
    out = ["#include <stdio.h>", "#include <stddef.h>"]
    out += ['#include "%s"' % h for h in ("faz_fp_avx2.h", "faz_ecdh_avx2.h", "faz_eddsa_avx2.h", "faz_hash_avx2.h")]
    out.append("int main(void){")
    for p in paths:
        g, m = p.split(".", 1)
        out.append('printf("%%zu\\n",(size_t)((char*)&%s.%s-(char*)&%s));' % (g, m, g))
    out.append("return 0;}")
    body = "\n".join(out)
    # offsetof without linking the objects
    for g in set(p.split(".")[0] for p in paths):
        body = body.replace("(char*)&%s." % g, "(char*)&((__typeof__(%s)*)0)->" % g).replace("-(char*)&%s)" % g, "-(char*)0)")
    open(src, "w").write(body)
    exe_ = os.path.join(d, "slots%d" % os.getpid())
    r = subprocess.run(["gcc", "-w", "-mavx2"] + INC + [src, "-o", exe_], capture_output=True, text=True)
    if r.returncode: raise Unsupported("the public interface does not have the expected members:\n" + r.stderr[-2000:])
    v = subprocess.run([exe_], capture_output=True, text=True).stdout.split()
    return dict(zip(paths, map(int, v)))

def resolve(mod, path, off):
    """function bound to an interface slot in the current source"""
    g = path.split(".")[0]
    mc = Machine(mod)
    p = mc.glob(g)
    v = mc.load_int(Ptr(p.obj, off), 8)
    if isinstance(v, Fn): return v.name
    return None

# ---------------------------------------------------------------- obligations
class Result:
    """outcome of the obligations of one function (one aliasing pattern, one path)"""
    def __init__(s, fn):
        s.fn = fn; s.obs = []; s.fail = []; s.unsup = []; s.trusted = set(); s.notes = []; s.log = {}
    def ok(s, name, backend, t=0.0): s.obs.append((name, backend, t))
    def bad(s, name, msg): s.fail.append((name, msg))

def run_task(t):
    fn, args, limit = t
    r = Result(getattr(fn, "__name__", "?"))
    def onalarm(*a): raise Unsupported("time limit of %ds" % limit)
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(limit)
    from . import exe
    exe.CT.clear(); exe.RAN.clear(); t0 = time.time()
    try:
        out = fn(*args)
        r = out if isinstance(out, Result) else r
    except Violation as e:
        r.fn = getattr(args[0], 'name', str(args[0])) if args else r.fn
        r.fail.append((e.ob, e.msg)); r.viol = e.info
    except Unsupported as e:
        r.fn = getattr(args[0], 'name', str(args[0])) if args else r.fn
        r.unsup.append(str(e))
    except Exception as e:
        r.fn = getattr(args[0], 'name', str(args[0])) if args else r.fn
        r.unsup.append("internal error: %s\n%s" % (e, traceback.format_exc()[-1500:]))
    finally:
        signal.alarm(0)
    r.wall = time.time() - t0; r.ct = sorted(exe.CT); r.ran = sorted(exe.RAN)
    return r

START = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", "600"))     # seconds after which a check gives its answer
def _failed(t, msg):
    r = Result(getattr(t[1][0], "name", None) or (str(t[1][0]) if t[1] else getattr(t[0], "__name__", "?"))); r.unsup.append(msg); r.wall = 0
    return r
def run_all(tasks, procs=8, limit=600):
    """run the tasks in forked workers; a worker that dies or does not keep its time limit yields an undecided obligation"""
    tasks = [(t[0], t[1], t[2] if len(t) > 2 else limit) for t in tasks]
    if not tasks: return []
    import pickle, select
    out = [None] * len(tasks); todo = list(range(len(tasks)))[::-1]; W = {}
    def spawn():
        a, b = os.pipe(); c, d = os.pipe(); sys.stdout.flush(); sys.stderr.flush(); pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(b); os.close(c); signal.signal(signal.SIGALRM, signal.SIG_DFL)
                for x in W.values(): os.close(x[1]); os.close(x[2])
                while True:
                    h = os.read(a, 4)
                    if len(h) < 4: break
                    k = int.from_bytes(h, "little"); r = run_task(tasks[k])
                    try: m = pickle.dumps(r)
                    except Exception as e: m = pickle.dumps(_failed(tasks[k], "internal error: the result cannot be returned: %s" % e))
                    m = len(m).to_bytes(8, "little") + m; o = 0
                    while o < len(m): o += os.write(d, m[o:o + 65536])
            except BaseException as e:
                print("worker: %r" % e, file=sys.stderr); code = 3
            finally: os._exit(code)
        os.close(a); os.close(d); W[pid] = [pid, b, c, None, 0.0, b""]
        return W[pid]
    def give(w):
        if not todo: return False
        k = todo.pop(); w[3] = k; w[4] = time.time() + min(tasks[k][2] + 20, max(5, START + BUDGET - time.time())); w[5] = b""
        os.write(w[1], k.to_bytes(4, "little")); return True
    def drop(w, kill):
        if kill:
            try: os.kill(w[0], signal.SIGKILL)
            except OSError: pass
        os.close(w[1]); os.close(w[2]); os.waitpid(w[0], 0); del W[w[0]]
    try:
        for _ in range(min(procs, len(tasks))): give(spawn())
        while W:
            rd, _, _ = select.select([w[2] for w in W.values()], [], [], 1.0); now = time.time()
            for w in list(W.values()):
                if w[2] in rd:
                    b = os.read(w[2], 1 << 20)
                    if not b:      # the worker died
                        k = w[3]; out[k] = _failed(tasks[k], "the worker ended unexpectedly"); drop(w, True)
                        if todo: give(spawn())
                        continue
                    w[5] += b
                    if len(w[5]) >= 8 and len(w[5]) >= 8 + int.from_bytes(w[5][:8], "little"):
                        out[w[3]] = pickle.loads(w[5][8:]); w[3] = None
                        if not give(w): drop(w, False)
                elif now > w[4]:
                    k = w[3]; out[k] = _failed(tasks[k], "time limit"); drop(w, True)
                    if todo: give(spawn())
    finally:
        for w in list(W.values()): drop(w, True)
    return out

def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, desc = rest.partition(" ")
                out.append((key, desc))
    return out

def finish(pid, tier, t0, results, level, assumptions, replay=None, notes=None, extra=None, functions=None, always=False):
    """write evidence, print verdict, return exit code.
    replay: callable(list of failing results) -> dict describing a failing input, or None"""
    obs = [o for r in results for o in r.obs]
    fails = [(r, f) for r in results for f in r.fail]
    unsup = [(r, u) for r in results for u in r.unsup]
    # an obligation that cannot be generated or decided is not discharged: it is reported as a violation
    fails += [(r, ("undecided", u)) for r, u in unsup]
    kf = known_findings(pid)
    listed = []; new = []
    for r, (name, msg) in fails:
        hit = next((k for k in kf if name == k[0] or ("%s:%s" % (r.fn, name)) == k[0]), None)
        if hit: listed.append(hit)
        else: new.append((r, name, msg))
    back = {}
    for n, b, t in obs:
        x = back.setdefault(b, [0, 0.0]); x[0] += 1; x[1] += t
    trusted = sorted(set(x for r in results for x in r.trusted))
    fns = functions or sorted(set(r.fn for r in results))
    rc = 0
    viols = []
    for k in dict.fromkeys(listed):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k[0], k[1]))
    found = None
    if (new or unsup or tier == "thorough" or always) and replay is not None:
        # the thorough tier also tries the compiled code (independent of the instruction semantics that the proof trusts)
        try: found = replay([r for r, _, _ in new] + [r for r, _ in unsup] if new or unsup else results if tier == "thorough" else [])
        except Exception as e:
            print("replay search failed: %s" % e, file=sys.stderr); traceback.print_exc()
    if new or found:
        d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % pid)
        rec = dict(property=pid, failed_obligations=[dict(function=r.fn, obligation=n, verifier_output=m) for r, n, m in new][:20],
                   unsupported=[u for _, u in unsup][:5], failing_input=found)
        json.dump(rec, open(path, "w"), indent=1, default=str)
        for r, n, m in new[:8]: print("failed obligation: %s [%s] %s" % (n, r.fn, m[:400]))
        if found: print("failing input on the real code: %s" % json.dumps(found, default=str)[:600])
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
        viols = [dict(obligation=n, function=r.fn, replay=path) for r, n, m in new] or [dict(obligation="replay", replay=path)]
        rc = 1
    nd = len(obs); nt = nd + len(fails)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=dict(kind="proof", obligations=nt, discharged=nd,
                            checker_cmd="python3-vt -m vf.check %s %s" % (pid, tier),
                            trusted_base=trusted or ["clang 18 front end", "IR and inline-assembly semantics of vf/exe.py and vf/asm.py", "polynomial arithmetic of vf/poly.py", "z3"],
                            functions_under_contract=fns,
                            backends={b: dict(obligations=c, solver_seconds=round(t, 3)) for b, (c, t) in back.items()}),
              assumptions=assumptions, violations=len(viols), violation_list=viols, wall_s=round(time.time() - t0, 2))
    if extra: ev["coverage"].update(extra)
    if notes: ev["notes"] = notes
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1, default=str)
    if rc == 0:
        print("OK property=%s obligations=%d discharged=%d functions=%d wall=%.1fs%s" % (
            pid, nt, nd, len(fns), time.time() - t0, " (known findings: %d)" % len(listed) if listed else ""))
    return rc
