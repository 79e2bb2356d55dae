"""python3-vt -m vf.check <property> [quick|thorough]"""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core
from vf.core import *
sys.setrecursionlimit(100000)

TRUST = [
  "clang 18 front end: the IR is generated from /repo's current sources on every run; vf/exe.py and vf/asm.py implement the semantics of that IR and of the x86-64 inline assembly",
  "what the extraction drops: debug information, metadata, poison-generating flags (nsw/nuw/exact), alignment attributes; integer operations are modular machine operations, not mathematical integers",
  "gcc and the CPU implement C, the intrinsics and the assembler mnemonics as specified",
  "polynomial arithmetic of vf/poly.py (exact integers) and z3's linear integer arithmetic",
]
def spec_tasks(specs):
    """resolve the interface slots in the current tree; slots that the library leaves empty carry no contract"""
    sl = slots([s.slot for s in specs]); tasks = []; bad = []
    mod = module()
    for s in specs:
        s.fname = resolve(mod, s.slot, sl[s.slot])
        s.off = sl[s.slot]
        if s.fname is None:
            if s.slot not in EMPTY_SLOTS:
                r = Result(s.name); r.bad("interface:%s" % s.slot, "the interface slot is empty"); r.wall = 0; bad.append((s, s.aliases()[0], r))
            continue
        for al in s.aliases(): tasks.append((s, al))
    return tasks, bad
EMPTY_SLOTS = {"Fp448._1w_red.arith.cmv", "Fp448._2w_red.arith.neg", "Fp448._2w_red.arith.cmv", "Fp448._4w_red.arith.neg"}

def check_specs(pid, tier, specs, assumptions=()):
    from vf import fnspec, replay
    t0 = time.time()
    tasks, bad = spec_tasks(specs)
    res = run_all([(fnspec.verify, t) for t in tasks], limit=300)
    pairs = list(zip(tasks, res)) + [((s, al), r) for s, al, r in bad]
    def rp(rs):
        ids = set(map(id, rs))
        return replay.fieldspec_replay([(s, al, s.off) for (s, al), r in pairs if id(r) in ids])
    return finish(pid, tier, t0, [r for _, r in pairs], "proof", TRUST + list(assumptions), rp,
                  functions=sorted(set(s.fname for s, _ in tasks)), extra=dict(contracts=len(specs), aliasing_patterns=len(tasks)))

def C01(tier):
    from vf import fieldspecs as fs
    return check_specs("C01", tier, fs.full(fs.F255))
def C03(tier):
    from vf import fieldspecs as fs
    return check_specs("C03", tier, fs.full(fs.F448))
def C02(tier):
    from vf import fieldspecs as fs
    return check_specs("C02", tier, sum((fs.packed(fs.F255, w) for w in (1, 2, 4)), []), ["operand digits within the contract preconditions listed in vf/fieldspecs.py"])
def C04(tier):
    from vf import fieldspecs as fs
    return check_specs("C04", tier, sum((fs.packed(fs.F448, w) for w in (1, 2, 4)), []), ["operand digits within the contract preconditions listed in vf/fieldspecs.py"])

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    try:
        f = globals().get(pid)
        if f is None:
            from vf import checks
            f = getattr(checks, pid)
        rc = f(tier)
    except Unsupported as e:
        r = Result(pid); r.unsup.append(str(e)); r.wall = 0
        rc = finish(pid, tier, t0, [r], "proof", TRUST)
    finally:
        core.cleanup()
    sys.exit(rc)
if __name__ == "__main__": main()
