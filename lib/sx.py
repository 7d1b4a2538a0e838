"""Python face of the symbolic engine (/verif/engine) and helpers shared by all checks."""
import ctypes as C, os, subprocess, sys, tempfile, shutil, atexit, itertools, json, time, hashlib, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBP = os.path.join(BUILD, "libsymx.so")
_lib = None
V, U64, INT, STR = C.c_void_p, C.c_uint64, C.c_int, C.c_char_p
OPS = dict(AND=2, OR=3, XOR=4, ADD=5, SUB=6, MUL=7, UDIV=8, SDIV=9, UREM=10, SREM=11, SHL=12, LSHR=13, ASHR=14, CONCAT=15, EQ=19, ULT=20, ULE=21, SLT=22, SLE=23)
ST = dict(EXIT=0, RETURN=1, ASSERT=2, ABORT=3, MEMERR=4, DIVZERO=5, LIMIT=6, UNKNOWN=7, UNSUPPORTED=8, HALT=9, STOP=10)
STN = {v: k for k, v in ST.items()}

def ensure_built():
    subprocess.run([os.path.join(VERIF, "engine", "build.sh")], check=True)

def lib():
    global _lib
    if _lib is None:
        if not os.path.exists(LIBP): ensure_built()
        L = C.CDLL(LIBP)
        def d(name, res, *a): f = getattr(L, name); f.restype = res; f.argtypes = list(a)
        d("se_const", V, INT, U64); d("se_var", V, STR, INT); d("se_bin", V, INT, V, V); d("se_not", V, V); d("se_ite", V, V, V, V)
        d("se_extract", V, V, INT, INT); d("se_zext", V, V, INT); d("se_sext", V, V, INT); d("se_width", INT, V); d("se_isconst", INT, V, C.POINTER(U64))
        d("se_str", INT, V, INT, C.c_char_p, INT); d("se_support", INT, V, V, INT); d("se_nvars", INT); d("se_varname", STR, INT)
        d("st_get", None, V, V); d("set_timeout", None, INT); d("set_dump", None, STR)
        d("pc_new", V); d("pc_clone", V, V); d("pc_free", None, V); d("pc_assume", INT, V, V); d("pc_check", INT, V, V, V, INT); d("pc_ncons", INT, V); d("pc_con", V, V, INT); d("pc_model", None, V, V, INT); d("pc_setmodel", None, V, V, INT)
        d("se_eval", U64, V, V, INT); d("solve_all", INT, V, INT, V, INT)
        d("mod_load", V, STR, STR, INT); d("mod_global", INT, V, STR, V, V)
        d("job_new", V, STR, INT); d("job_free", None, V); d("job_arg", None, V, V); d("job_argv", None, V, V, V, INT); d("job_file", None, V, STR, V, V, INT); d("job_global", None, V, STR, V, V, INT)
        d("job_pc", None, V, V); d("job_cfg", None, V, U64, U64, C.c_double, U64, INT, INT, INT, INT, INT); d("job_run", INT, V, V); d("job_complete", INT, V, STR, INT); d("job_path", V, V, INT)
        d("xj_new", V); d("xj_free", None, V); d("xj_reg", None, V, INT, V); d("xj_flag", None, V, INT, V); d("xj_ip", None, V, INT); d("xj_mem", None, V, INT, V, V, INT); d("xj_copymem", None, V, V); d("xj_fill", None, V, INT)
        d("xj_file", None, V, STR, V, V, INT); d("xj_env", None, V, V); d("xj_stop", None, V, INT); d("xj_code", None, V, INT, INT); d("xj_pc", None, V, V); d("xj_undef", None, V, STR); d("xj_cfg", None, V, U64, U64, C.c_double, U64, INT, INT); d("xj_run", INT, V); d("xj_complete", INT, V, STR, INT); d("xj_path", V, V, INT)
        d("xp_reg", V, V, INT); d("xp_flag", V, V, INT); d("xp_ip", INT, V)
        d("pr_status", INT, V); d("pr_msg", STR, V); d("pr_codesym", INT, V); d("pr_codec", U64, V); d("pr_codee", V, V); d("pr_ret", V, V); d("pr_steps", U64, V); d("pr_pc", V, V)
        d("pr_file", INT, V, STR, V, V, INT); d("pr_out", INT, V, V, V, INT); d("pr_files", INT, V, STR, INT); d("pr_log", INT, V, STR, INT); d("pr_openfds", INT, V); d("pr_mem", INT, V, U64, V, V, INT); d("pr_memdiff", INT, V, V, V, INT); d("xj_memdiff", INT, V, V, V, INT)
        _lib = L
    return _lib

class E:
    """Bit-vector expression. Comparisons default to unsigned; use slt/sle for signed ones."""
    __slots__ = ("p", "w")
    def __init__(self, p, w=None): self.p = p; self.w = w if w is not None else lib().se_width(p)
    def _o(self, o): return o if isinstance(o, E) else const(o, self.w)
    def _b(self, op, o, w=None): return E(lib().se_bin(OPS[op], self.p, self._o(o).p), w or self.w)
    def __add__(s, o): return s._b("ADD", o)
    __radd__ = __add__
    def __sub__(s, o): return s._b("SUB", o)
    def __rsub__(s, o): return s._o(o)._b("SUB", s)
    def __mul__(s, o): return s._b("MUL", o)
    def __and__(s, o): return s._b("AND", o)
    def __or__(s, o): return s._b("OR", o)
    def __xor__(s, o): return s._b("XOR", o)
    def __invert__(s): return E(lib().se_not(s.p), s.w)
    def __neg__(s): return const(0, s.w) - s
    def __lshift__(s, o): return s._b("SHL", o)
    def __rshift__(s, o): return s._b("LSHR", o)
    def ashr(s, o): return s._b("ASHR", o)
    def udiv(s, o): return s._b("UDIV", o)
    def sdiv(s, o): return s._b("SDIV", o)
    def urem(s, o): return s._b("UREM", o)
    def srem(s, o): return s._b("SREM", o)
    def eq(s, o): return s._b("EQ", o, 1)
    def ne(s, o): return ~s.eq(o)
    def ult(s, o): return s._b("ULT", o, 1)
    def ule(s, o): return s._b("ULE", o, 1)
    def ugt(s, o): return s._o(o).ult(s)
    def uge(s, o): return s._o(o).ule(s)
    def slt(s, o): return s._b("SLT", o, 1)
    def sle(s, o): return s._b("SLE", o, 1)
    def sgt(s, o): return s._o(o).slt(s)
    def sge(s, o): return s._o(o).sle(s)
    def ex(s, off, w): return E(lib().se_extract(s.p, off, w), w)
    def zx(s, w): return E(lib().se_zext(s.p, w), w) if w > s.w else s.ex(0, w)
    def sx(s, w): return E(lib().se_sext(s.p, w), w) if w > s.w else s.ex(0, w)
    def cat(s, lo): return E(lib().se_bin(OPS["CONCAT"], s.p, lo.p))
    def ite(s, a, b):
        if not isinstance(a, E): a = const(a, b.w)
        if not isinstance(b, E): b = const(b, a.w)
        return E(lib().se_ite(s.p, a.p, b.p), a.w)
    @property
    def val(s):
        v = U64()
        return v.value if lib().se_isconst(s.p, C.byref(v)) else None
    def same(s, o): return s.p == o.p
    def __repr__(s):
        b = C.create_string_buffer(20000); lib().se_str(s.p, 8, b, 20000); return b.value.decode()
    def eval(s, model): return lib().se_eval(s.p, model, len(model))
    def __bool__(s): raise TypeError("symbolic expression used as a Python bool")
def const(v, w): return E(lib().se_const(w, v & ((1 << w) - 1)), w)
def var(name, w): return E(lib().se_var(name.encode(), w), w)
def true(): return const(1, 1)
def false(): return const(0, 1)
def conj(es):
    r = true()
    for e in es: r = r & e
    return r
def disj(es):
    r = false()
    for e in es: r = r | e
    return r
def inset(e, vals):
    """e is one of the given constants (ranges as (lo,hi))"""
    r = false()
    for v in vals:
        if isinstance(v, tuple): r = r | (e.uge(v[0]) & e.ule(v[1]))
        else: r = r | e.eq(ord(v) if isinstance(v, str) else v)
    return r
def bits(v, w): return v if isinstance(v, E) else const(v, w)

def _pack(bs):
    """list of int / E(8) -> (uint8 array, pointer array, n)"""
    n = len(bs); c = (C.c_uint8 * max(n, 1))(); e = (V * max(n, 1))()
    if isinstance(bs, (bytes, bytearray)):
        C.memmove(c, bytes(bs), n)
    else:
        for i, b in enumerate(bs):
            if isinstance(b, E):
                v = b.val
                if v is None: e[i] = b.p
                else: c[i] = v
            else: c[i] = b
    return c, e, n
def _unpack(c, e, n): return [E(e[i], 8) if e[i] else c[i] for i in range(n)]

def model_array():
    n = lib().se_nvars(); return (U64 * max(n, 1))()
def model_dict(m):
    return {lib().se_varname(i).decode(): m[i] for i in range(min(len(m), lib().se_nvars()))}
def eval_bytes(bs, model):
    return bytes((b.eval(model) if isinstance(b, E) else b) & 255 for b in bs)

class Unknown(Exception): pass
class PC:
    def __init__(self, p=None, own=True): self.p = p if p is not None else lib().pc_new(); self.own = own
    def __del__(self):
        if self.own and self.p and _lib: _lib.pc_free(self.p)
    def clone(self): return PC(lib().pc_clone(self.p))
    def assume(self, e):
        r = lib().pc_assume(self.p, e.p)
        if r == 2: raise Unknown("assume")
        return r == 1
    def check(self, e):
        """model array when pc && e is satisfiable, None when not"""
        m = model_array(); r = lib().pc_check(self.p, e.p, m, len(m))
        if r == 2: raise Unknown("check")
        return m if r == 1 else None
    def must(self, e): return self.check(~e) is None
    def cons(self): return [E(lib().pc_con(self.p, i), 1) for i in range(lib().pc_ncons(self.p))]
    def model(self):
        m = model_array(); lib().pc_model(self.p, m, len(m)); return m

class Path:
    def __init__(self, p, owner): self.p = p; self.owner = owner; self.status = lib().pr_status(p); self.msg = lib().pr_msg(p).decode(errors="replace"); self.pc = PC(lib().pr_pc(p), own=False)
    @property
    def st(self): return STN[self.status]
    @property
    def code(self):
        if lib().pr_codesym(self.p): return E(lib().pr_codee(self.p))
        v = lib().pr_codec(self.p); return v
    @property
    def ret(self): return E(lib().pr_ret(self.p))
    def _get(self, f, *a):
        n = f(self.p, *a, None, None, 0)
        if n < 0: return None
        c = (C.c_uint8 * max(n, 1))(); e = (V * max(n, 1))(); f(self.p, *a, c, e, n); return _unpack(c, e, n)
    def file(self, name): return self._get(lib().pr_file, name.encode())
    def out(self): return self._get(lib().pr_out)
    def files(self):
        b = C.create_string_buffer(4096); lib().pr_files(self.p, b, 4096); return [x for x in b.value.decode().split("\n") if x]
    def log(self):
        b = C.create_string_buffer(8192); lib().pr_log(self.p, b, 8192); return [x for x in b.value.decode().split("\n") if x]
    def mem(self, addr, n):
        c = (C.c_uint8 * n)(); e = (V * n)(); r = lib().pr_mem(self.p, addr, c, e, n)
        return None if r < 0 else _unpack(c, e, n)
    def mem16(self, addr):
        b = self.mem(addr, 2); return bits(b[1], 8).cat(bits(b[0], 8))
    def reg(self, i): return E(lib().xp_reg(self.p, i), 16)
    def flag(self, i): return E(lib().xp_flag(self.p, i), 1)
    @property
    def ip(self): return lib().xp_ip(self.p)
    @property
    def steps(self): return lib().pr_steps(self.p)

class Incomplete(Exception): pass
class Module:
    def __init__(self, path):
        err = C.create_string_buffer(20000); self.p = lib().mod_load(path.encode(), err, 4000)
        self.warn = err.value.decode()
        if not self.p: raise RuntimeError("cannot load " + path + ": " + self.warn)
    def globaddr(self, n):
        a, s = U64(), U64()
        return (a.value, s.value) if lib().mod_global(self.p, n.encode(), C.byref(a), C.byref(s)) else None
class Job:
    def __init__(self, fn, main=False): self.p = lib().job_new(fn.encode(), 1 if main else 0)
    def __del__(self):
        if _lib: _lib.job_free(self.p)
def run_fn(mod, fn, args=(), pc=None, globals=None, keep=False, steps=20000000, paths=20000, time_=300, rng=1024, conc=300, allow_incomplete=False):
    j = Job(fn); L = lib()
    for a in args: L.job_arg(j.p, a.p)
    for n, b in (globals or {}).items(): c, e, k = _pack(b); L.job_global(j.p, n.encode(), c, e, k)
    if pc: L.job_pc(j.p, pc.p)
    L.job_cfg(j.p, steps, paths, time_, rng, conc, 0, 0, 0, 1 if keep else 0)
    return _done(j, L.job_run(j.p, mod.p), L.job_complete, L.job_path, allow_incomplete)
def run_main(mod, argv, files, pc=None, steps=20000000, paths=20000, time_=300, rng=1024, conc=300, faults=0, kinds=0, chunks=0, keep=False, allow_incomplete=False):
    """Symbolically execute main(argv) with the given files (name -> bytes or list of int/E)."""
    j = Job("main", True); L = lib()
    for a in argv: c, e, k = _pack(a.encode() if isinstance(a, str) else a); L.job_argv(j.p, c, e, k)
    for n, b in files.items(): c, e, k = _pack(b.encode() if isinstance(b, str) else b); L.job_file(j.p, n.encode(), c, e, k)
    if pc: L.job_pc(j.p, pc.p)
    L.job_cfg(j.p, steps, paths, time_, rng, conc, faults, kinds, chunks, 1 if keep else 0)
    return _done(j, L.job_run(j.p, mod.p), L.job_complete, L.job_path, allow_incomplete)
def _done(j, n, complete, getp, allow):
    b = C.create_string_buffer(500); ok = complete(j.p, b, 500); why = b.value.decode()
    ps = [Path(getp(j.p, i), j) for i in range(n)]
    if not ok and not allow: raise Incomplete(why)
    if allow: return ps, (None if ok else why)
    return ps
R = dict(AX=0, CX=1, DX=2, BX=3, SP=4, BP=5, SI=6, DI=7, ES=8, CS=9, SS=10, DS=11)
F = dict(CF=0, PF=1, AF=2, ZF=3, SF=4, OF=5, DF=6, IF=7, TF=8)
class XJob:
    def __init__(self): self.p = lib().xj_new()
    def __del__(self):
        if _lib: _lib.xj_free(self.p)
    def mem(self, addr, bs): c, e, n = _pack(bs); lib().xj_mem(self.p, addr, c, e, n)
    def reg(self, r, v): lib().xj_reg(self.p, R[r], bits(v, 16).p)
    def flag(self, f, v): lib().xj_flag(self.p, F[f], bits(v, 1).p)
    def file(self, n, bs): c, e, k = _pack(bs); lib().xj_file(self.p, n.encode(), c, e, k)
    def copymem(self, path): lib().xj_copymem(self.p, path.p)
    def code(self, lo, hi): lib().xj_code(self.p, lo, hi)
    def stop(self, ip): lib().xj_stop(self.p, ip)
    def run(self, ip, pc=None, steps=200000, paths=5000, time_=300, rng=1024, conc=300, dos=1, undef="u", allow_incomplete=False):
        L = lib(); L.xj_ip(self.p, ip); L.xj_undef(self.p, undef.encode())
        if pc: L.xj_pc(self.p, pc.p)
        L.xj_cfg(self.p, steps, paths, time_, rng, conc, dos)
        return _done(self, L.xj_run(self.p), L.xj_complete, L.xj_path, allow_incomplete)
    def memdiff(self, path, n=4096):
        a = (C.c_uint32 * n)(); k = lib().xj_memdiff(self.p, path.p, a, n); return list(a[:min(k, n)])

def stats():
    a = (U64 * 12)(); t = C.c_double(); lib().st_get(a, C.byref(t))
    k = ["queries", "sat", "unsat", "unknown", "cache_hits", "byte_domain_decisions", "model_hits", "trivial", "ir_instructions", "forks", "x86_instructions", "expr_nodes"]
    d = {k[i]: a[i] for i in range(12)}; d["solver_s"] = round(t.value, 3); return d

# ------------------------------------------------------------------ building the code under test
def which(*c):
    for x in c:
        p = x if os.path.isabs(x) and os.path.exists(x) else shutil.which(x)
        if p: return p
    raise RuntimeError("missing tool " + c[0])
CLANG = lambda: which("clang-18", "/usr/lib/llvm-18/bin/clang", "clang")
OPT = lambda: which("opt-18", "/usr/lib/llvm-18/bin/opt")
LINK = lambda: which("llvm-link-18", "/usr/lib/llvm-18/bin/llvm-link")
_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="sx.", dir=os.environ.get("TMPDIR", "/tmp")); pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
class BuildError(Exception): pass
def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))
    return r.stdout
PASSES = "sroa,early-cse,simplifycfg"
def tool_bc(name, repo=None):
    """LLVM IR of the real tool, regenerated from the repository's current source, linked with the C library model."""
    src = os.path.join(repo or REPO, name + ".c"); d = tmpdir(); o = os.path.join(d, name + ".bc")
    if os.path.exists(o): return o
    must([CLANG(), "-O0", "-Xclang", "-disable-O0-optnone", "-std=c99", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-w", "-emit-llvm", "-c", src, "-o", o + ".0"])
    must([OPT(), "-passes=" + PASSES, o + ".0", "-o", o + ".1"])
    must([LINK(), o + ".1", os.path.join(BUILD, "rt.bc"), "-o", o]); return o
def c_bc(path, name, msp430=False, flags=(), rt=True):
    d = tmpdir(); o = os.path.join(d, name + ".bc")
    tgt = ["--target=msp430", "-fpack-struct=1", "-fsigned-char", "-fwrapv", "-ffreestanding"] if msp430 else []
    must([CLANG(), *tgt, "-O0", "-Xclang", "-disable-O0-optnone", "-w", *flags, "-emit-llvm", "-c", path, "-o", o + ".0"])
    must([OPT(), "-passes=" + PASSES, o + ".0", "-o", o + ".1"])
    if msp430 or not rt: shutil.copy(o + ".1", o)
    else: must([LINK(), o + ".1", os.path.join(BUILD, "rt.bc"), "-o", o])
    return o
def native(name, asan=False):
    """The real tool built by gcc, for replays."""
    d = tmpdir(); o = os.path.join(d, name + (".asan" if asan else ".exe"))
    if not os.path.exists(o):
        fl = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if asan else ["-O2", "-g"]
        must(["gcc", "-std=c99", "-w", *fl, os.path.join(REPO, name + ".c"), "-o", o + ".tmp"]); os.rename(o + ".tmp", o)
    return o
class NR: pass
def run_native(name, args, files, outs=(), asan=False, timeout=10, cwd=None):
    """Run the real tool in a scratch directory; returns .rc (None = timeout), .out, .files"""
    exe = native(name, asan); d = tempfile.mkdtemp(dir=tmpdir()); r = NR()
    try:
        for n, b in files.items():
            with open(os.path.join(d, n), "wb") as f: f.write(b)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98")
        try:
            p = subprocess.run([exe] + list(args), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout, env=env); r.rc = p.returncode; r.out = p.stdout
        except subprocess.TimeoutExpired as ex: r.rc = None; r.out = ex.stdout or b""
        r.files = {}
        for n in os.listdir(d):
            q = os.path.join(d, n)
            if os.path.isfile(q) and os.path.getsize(q) < (1 << 22):
                with open(q, "rb") as f: r.files[n] = f.read()
    finally: shutil.rmtree(d, ignore_errors=True)
    return r
