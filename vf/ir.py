"""Extraction of the code under verification.

build_ir() compiles the project's real sources (never a copy) to LLVM IR on every run; parse()
reads the textual IR into Python objects.  What the extraction drops: debug info, attributes and
metadata (kept: !tbaa), fast-math flags, nuw/nsw flags, alignment (kept for vector accesses).
"""
import os, re, subprocess, tempfile, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")

class Unsupported(Exception):
    """The code uses something the verifier's dialect does not cover -> exit 2, never a verdict."""

CFLAGS = ["-std=gnu99", "-m64", "-mavx2", "-mbmi2", "-madx", "-w", "-fno-builtin",
          "-D__AMXINTRIN_H", "-D__AMXFP16INTRIN_H", "-D__AMX_COMPLEXINTRIN_H", "-D__AMXCOMPLEXINTRIN_H"]

def build_ir(src, outdir, extra=()):
    base = os.path.join(outdir, os.path.basename(src).replace(".c", ""))
    inc = ["-I" + os.path.join(REPO, d) for d in ("include", "src", "third_party")]
    cmd = (["clang", "-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes",
            "-femit-all-decls"] + CFLAGS + inc + list(extra) +
           [os.path.join(REPO, src), "-o", base + ".0.ll"])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Unsupported("clang failed on %s:\n%s" % (src, r.stderr[-4000:]))
    cmd = ["opt-18", "-S", "-passes=always-inline,function(sroa,early-cse,simplifycfg),globaldce",
           base + ".0.ll", "-o", base + ".ll"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Unsupported("opt failed on %s:\n%s" % (src, r.stderr[-4000:]))
    return base + ".ll"

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "n", "e", "packed")
    def __init__(s, k, w=0, n=0, e=None, packed=False):
        s.k, s.w, s.n, s.e, s.packed = k, w, n, e, packed
    def __repr__(s):
        if s.k == "int": return "i%d" % s.w
        if s.k in ("vec", "arr"): return "[%d x %r]" % (s.n, s.e)
        if s.k == "struct": return "{%s}" % ", ".join(map(repr, s.e))
        return s.k
I1 = Ty("int", 1); I8 = Ty("int", 8); I32 = Ty("int", 32); I64 = Ty("int", 64)
PTR = Ty("ptr", 64); VOID = Ty("void")
_ints = {}
def ity(w):
    if w not in _ints: _ints[w] = Ty("int", w)
    return _ints[w]

def align_of(t):
    if t.k == "int": return max(1, min(16, 1 << ((t.w + 7) // 8 - 1).bit_length()))
    if t.k == "ptr": return 8
    if t.k == "arr": return align_of(t.e)
    if t.k == "vec": return size_of(t)
    if t.k == "struct": return 1 if t.packed or not t.e else max(align_of(x) for x in t.e)
    raise Unsupported("align of %r" % t)
_size = {}
def size_of(t):
    if t.k == "int": return 1 << ((t.w + 7) // 8 - 1).bit_length()
    if t.k == "ptr": return 8
    if t.k == "arr": return t.n * size_of(t.e)
    if t.k == "vec": return (t.n * (64 if t.e.k == "ptr" else t.e.w) + 7) // 8
    if t.k == "struct":
        if id(t) in _size: return _size[id(t)]
        r = offsets(t)[1]; _size[id(t)] = r
        return r
    if t.k in ("double",): return 8
    if t.k in ("float",): return 4
    raise Unsupported("size of %r" % t)
_offs = {}
def offsets(t):
    if id(t) in _offs: return _offs[id(t)]
    o = 0; res = []
    for x in t.e:
        a = 1 if t.packed else align_of(x)
        o = (o + a - 1) // a * a
        res.append(o); o += size_of(x)
    a = align_of(t)
    o = (o + a - 1) // a * a
    _offs[id(t)] = (res, o, t)
    return _offs[id(t)]

# ---------------------------------------------------------------- tokens
TOK = re.compile(r'''\s*(?:
   (c?"(?:[^"\\]|\\.)*")            # string
  |([%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))   # identifiers
  |(![a-zA-Z0-9_.]*)
  |(\#\d+)
  |(-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
  |(0x[0-9A-Fa-f]+)
  |([a-zA-Z_$.][-a-zA-Z0-9_$.]*:?)
  |(\.\.\.)
  |([(){}\[\]<>,=*|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "": break
            raise Unsupported("cannot tokenise: %r" % s[i:i+60])
        out.append(m.group(0).strip()); i = m.end()
    return out

class Func:
    def __init__(s, name, ret, params):
        s.name, s.ret, s.params = name, ret, params
        s.blocks = {}; s.order = []
        s.vararg = False
class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "x")
    def __init__(s, op, res, ty, a, line, x=None):
        s.op, s.res, s.ty, s.a, s.line, s.x = op, res, ty, a, line, x
    def __repr__(s): return s.line.strip()

# operand kinds: ("l",name) local, ("c",int) , ("g",name), ("u",) undef, ("n",) null,
# ("v",[ops]) vector/array/struct constant, ("z",) zero, ("s",bytes), ("ce",...)
class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s.meta = {}

FLAGS = {"nuw","nsw","exact","inbounds","disjoint","nneg","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"}
PATTR = {"noundef","nocapture","readonly","writeonly","noalias","nonnull","returned","signext","zeroext",
         "inreg","readnone","immarg","nofree","allocptr","swiftself","dead_on_unwind","writable"}

class P:
    def __init__(s, m, toks): s.m, s.t, s.i = m, toks, 0
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def accept(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def expect(s, x):
        y = s.next()
        if y != x: raise Unsupported("expected %s got %s in %s" % (x, y, " ".join(s.t)))
    def type(s):
        t = s.next()
        if t == "void": r = VOID
        elif t == "ptr": r = PTR
        elif re.fullmatch(r"i\d+", t): r = ity(int(t[1:]))
        elif t in ("double", "float", "label", "metadata", "token", "x86_fp80", "half", "bfloat"): r = Ty(t, {"double": 64, "float": 32, "half": 16, "bfloat": 16, "x86_fp80": 80}.get(t, 0))
        elif t == "<":
            if s.peek() == "{":
                s.next(); e = s.tylist("}"); s.expect(">"); r = Ty("struct", e=e, packed=True)
            else:
                n = int(s.next()); s.expect("x"); e = s.type(); s.expect(">"); r = Ty("vec", n=n, e=e)
        elif t == "[":
            n = int(s.next()); s.expect("x"); e = s.type(); s.expect("]"); r = Ty("arr", n=n, e=e)
        elif t == "{": r = Ty("struct", e=s.tylist("}"))
        elif t[0] == "%": r = s.m.types[t]
        else: raise Unsupported("type %s in %s" % (t, " ".join(s.t)))
        while s.peek() == "(":   # function type
            d = 0
            while True:
                x = s.next()
                d += x == "("; d -= x == ")"
                if d == 0: break
        return r
    def tylist(s, end):
        e = []
        if s.accept(end): return e
        while True:
            e.append(s.type())
            if s.accept(end): return e
            s.expect(",")
    def attrs(s):
        while True:
            t = s.peek()
            if t in PATTR: s.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "initializes", "elementtype", "memory", "allocalign"):
                s.next()
                if s.peek() == "(":
                    d = 0
                    while True:
                        x = s.next(); d += x == "("; d -= x == ")"
                        if d == 0: break
                elif t == "align": s.next()
            else: return
    def value(s, ty):
        t = s.next()
        if t[0] == "%": return ("l", t)
        if t[0] == "@": return ("g", t[1:])
        if t in ("undef", "poison"): return ("u",)
        if t == "null": return ("n",)
        if t == "true": return ("c", 1)
        if t == "false": return ("c", 0)
        if t == "zeroinitializer": return ("z",)
        if t[0] == "c" and t[1:2] == '"': return ("s", cstr(t[2:-1]))
        if t == "<":
            packed = s.accept("{")
            r = s.vlist("}" if packed else ">", ty)
            if packed: s.expect(">")
            return ("v", r)
        if t == "[": return ("v", s.vlist("]", ty))
        if t == "{": return ("v", s.vlist("}", ty))
        if re.fullmatch(r"-?\d+", t):
            return ("c", int(t) & ((1 << ty.w) - 1)) if ty.k == "int" else ("c", int(t))
        if t == "getelementptr":
            while s.peek() in FLAGS: s.next()
            s.expect("("); bt = s.type(); s.expect(","); ops = []
            while True:
                while s.peek() in FLAGS or s.peek()=="inrange": s.next()
                vt = s.type(); ops.append((vt, s.value(vt)))
                if s.accept(")"): break
                s.expect(",")
            return ("gep", bt, ops)
        if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            s.expect("("); vt = s.type(); v = s.value(vt); s.expect("to"); rt = s.type(); s.expect(")")
            return ("cast", t, vt, v, rt)
        if t in ("add", "sub", "mul"):
            while s.peek() in FLAGS: s.next()
            s.expect("("); vt = s.type(); a = s.value(vt); s.expect(","); s.type(); b = s.value(vt); s.expect(")")
            return ("bin", t, vt, a, b)
        if t == "asm": raise Unsupported("asm value")
        raise Unsupported("value %s in %s" % (t, " ".join(s.t)[:200]))
    def vlist(s, end, ty):
        r = []
        if s.accept(end): return r
        while True:
            t = s.type(); r.append((t, s.value(t)))
            if s.accept(end): return r
            s.expect(",")
    def tv(s):
        t = s.type(); s.attrs(); return t, s.value(t)

def cstr(x):
    return bytes(re.sub(rb"\\(\\|[0-9A-Fa-f]{2})", lambda m: b"\\" if m.group(1) == b"\\" else bytes([int(m.group(1), 16)]), x.encode("latin1")))

BIN = {"add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"}
CASTS = {"trunc","zext","sext","bitcast","ptrtoint","inttoptr"}

def parse_ins(m, line, lbl_extra=None):
    core = re.sub(r", !(?!tbaa\b)[a-zA-Z.]+ ![0-9]+", "", line)
    tb = re.search(r", !tbaa (![0-9]+)", core)
    core = re.sub(r", !tbaa ![0-9]+", "", core)
    t = tokenize(core); p = P(m, t)
    res = None
    if len(t) > 1 and t[1] == "=": res = p.next(); p.next()
    op = p.next()
    while op in ("tail", "musttail", "notail"): op = p.next()
    tbaa = tb.group(1) if tb else None
    if op in BIN:
        while p.peek() in FLAGS: p.next()
        ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return Ins(op, res, ty, (a, b), line)
    if op == "icmp":
        pred = p.next(); ty = p.type(); a = p.value(ty); p.expect(","); b = p.value(ty)
        return Ins(op, res, ty, (a, b), line, pred)
    if op in CASTS:
        while p.peek() in FLAGS: p.next()
        ty = p.type(); a = p.value(ty); p.expect("to"); rt = p.type()
        return Ins(op, res, rt, (a,), line, ty)
    if op == "load":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty = p.type(); p.expect(","); pt, a = p.tv()
        return Ins(op, res, ty, (a,), line, tbaa)
    if op == "store":
        while p.peek() in ("volatile", "atomic"): p.next()
        ty, v = p.tv(); p.expect(","); pt, a = p.tv()
        return Ins(op, None, ty, (v, a), line, tbaa)
    if op == "getelementptr":
        while p.peek() in FLAGS: p.next()
        bt = p.type(); p.expect(","); ops = []
        while True:
            ops.append(p.tv())
            if not p.accept(","): break
        return Ins(op, res, bt, tuple(ops), line)
    if op == "alloca":
        ty = p.type(); n = ("c", 1)
        if p.accept(","):
            if p.peek() != "align": nt, n = p.tv()
        return Ins(op, res, ty, (n,), line)
    if op == "br":
        if p.accept("label"): return Ins("br", None, None, (p.next(),), line)
        ty = p.type(); c = p.value(ty); p.expect(","); p.expect("label"); a = p.next(); p.expect(",")
        p.expect("label"); b = p.next()
        return Ins("cbr", None, None, (c, a, b), line)
    if op == "switch":
        ty = p.type(); v = p.value(ty); p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
        cs = []
        while not p.accept("]"):
            ct = p.type(); c = p.value(ct); p.expect(","); p.expect("label"); cs.append((c[1], p.next()))
        return Ins("switch", None, ty, (v, d, cs), line)
    if op == "phi":
        ty = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(ty); p.expect(","); b = p.next(); p.expect("]"); inc.append((v, b))
            if not p.accept(","): break
        return Ins("phi", res, ty, inc, line)
    if op == "select":
        ct = p.type(); c = p.value(ct); p.expect(","); ty = p.type(); a = p.value(ty); p.expect(",")
        p.type(); b = p.value(ty)
        return Ins("select", res, ty, (c, a, b), line, ct)
    if op == "ret":
        if p.peek() == "void": return Ins("ret", None, VOID, (), line)
        ty, v = p.tv(); return Ins("ret", None, ty, (v,), line)
    if op == "unreachable": return Ins(op, None, None, (), line)
    if op == "freeze":
        ty, v = p.tv(); return Ins(op, res, ty, (v,), line)
    if op == "extractelement":
        ty, v = p.tv(); p.expect(","); it, i = p.tv(); return Ins(op, res, ty, (v, i), line)
    if op == "insertelement":
        ty, v = p.tv(); p.expect(","); et, e = p.tv(); p.expect(","); it, i = p.tv()
        return Ins(op, res, ty, (v, e, i), line)
    if op == "shufflevector":
        ty, a = p.tv(); p.expect(","); _, b = p.tv(); p.expect(","); mt, mk = p.tv()
        return Ins(op, res, ty, (a, b, mk), line, mt)
    if op == "extractvalue":
        ty, v = p.tv(); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return Ins(op, res, ty, (v,), line, idx)
    if op == "insertvalue":
        ty, v = p.tv(); p.expect(","); et, e = p.tv(); idx = []
        while p.accept(","): idx.append(int(p.next()))
        return Ins(op, res, ty, (v, e), line, idx)
    if op == "call":
        while p.peek() in ("fastcc", "ccc") or p.peek() in FLAGS: p.next()
        p.attrs(); rt = p.type(); 
        if p.peek() == "asm":
            p.next(); flags = []
            while p.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): flags.append(p.next())
            tpl = p.next(); p.expect(","); cons = p.next()
            p.expect("("); args = []
            while not p.accept(")"):
                at = p.type(); p.attrs(); args.append((at, p.value(at))); p.accept(",")
            return Ins("asm", res, rt, args, line, (cstr(tpl[1:-1]).decode(), cons[1:-1], flags))
        callee = p.value(PTR)
        p.expect("("); args = []
        while not p.accept(")"):
            at = p.type(); p.attrs()
            if at.k == "metadata":
                while p.peek() not in (",", ")"): p.next()
                args.append((at, ("u",)))
            else: args.append((at, p.value(at)))
            p.accept(",")
        return Ins("call", res, rt, args, line, callee)
    raise Unsupported("instruction %s" % line)

def parse(path):
    m = Module(); cur = None; blk = None
    lines = open(path, encoding="latin1").read().split("\n")
    i = 0; n = len(lines)
    deferred = []
    # types first
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm = l.split(" = ")[0]; m.types[nm] = Ty("struct", e=[])
    for l in lines:
        if l.startswith("%") and " = type " in l:
            nm, rest = l.split(" = type ", 1)
            if rest.startswith("opaque"): continue
            t = P(m, tokenize(rest)).type(); m.types[nm].e = t.e; m.types[nm].packed = t.packed; m.types[nm].k = t.k
    while i < n:
        l = lines[i]; i += 1
        if not l: continue
        if cur is None:
            c = l[0]
            if c == "@":
                mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
                rest = mm.group(2)
                mm2 = re.match(r'(?:(?:private|internal|dso_local|unnamed_addr|local_unnamed_addr|external|common|linkonce_odr|weak|available_externally|thread_local|hidden|protected) )*(constant|global) (.*)', rest)
                if not mm2: continue
                toks = tokenize(re.sub(r", (align \d+|section .*|comdat.*)", "", mm2.group(2)) if "c\"" not in mm2.group(2) else mm2.group(2))
                p = P(m, toks); ty = p.type()
                init = p.value(ty) if p.peek() is not None and not p.peek() == "," else None
                m.globals[mm.group(1)] = (ty, init, mm2.group(1) == "constant")
            elif l.startswith("define"):
                mm = re.match(r'define (.*?)@("[^"]*"|[-\w.$]+)\((.*)\)[^()]*(?:\(.*\))?.*\{$', l)
                toks = tokenize(l[len("define"):])
                k = next(j for j, x in enumerate(toks) if x[0] == "@")
                p = P(m, toks)
                while p.peek() in ("internal", "dso_local", "linkonce_odr", "available_externally", "private", "hidden", "weak"): p.next()
                p.attrs(); ret = p.type(); nm = p.next()[1:]
                p.expect("("); params = []
                f = Func(nm, ret, params)
                while not p.accept(")"):
                    if p.accept("..."): f.vararg = True; continue
                    pt = p.type(); p.attrs(); params.append((pt, p.next())); p.accept(",")
                cur = f; blk = None
                f.raw = []
                m.funcs[nm] = f
            elif l.startswith("declare"):
                mm = re.search(r"@([-\w.$]+)\(", l)
                if mm: m.decls[mm.group(1)] = l
            elif l.startswith("!"):
                mm = re.match(r"(![0-9]+) = (.*)", l)
                if mm: m.meta[mm.group(1)] = mm.group(2)
            continue
        if l == "}":
            cur = None; continue
        cur.raw.append(l)
    return m

def body(m, f):
    """Parse the body lazily; returns blocks {label: [Ins]} and the entry label."""
    if f.order: return
    blk = None; raw = f.raw; i = 0
    # implicit entry label number
    if raw and not re.match(r'^("[^"]*"|[-\w.$]+):', raw[0]):
        blk = "%entry"; f.blocks[blk] = []; f.order.append(blk)
    while i < len(raw):
        l = raw[i]; i += 1
        if not l.strip() or l.lstrip().startswith(";"): continue
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if mm:
            blk = "%" + mm.group(1); f.blocks[blk] = []; f.order.append(blk); continue
        if l.rstrip().endswith("["):
            while not raw[i].strip().startswith("]"):
                l += " " + raw[i].strip(); i += 1
            l += " ]"; i += 1
        l = re.sub(r"\s*;[^\"]*$", "", l) if '"' not in l else l
        f.blocks[blk].append(parse_ins(m, l))
    # the implicit entry label is the number of parameters (used by phi references)
    if f.order[0] == "%entry":
        num = [p[1] for p in f.params if re.fullmatch(r"%\d+", p[1])]
        f.entry_alias = "%%%d" % len(num)
    else: f.entry_alias = None
