"""E01: scc, scpp and sas under failing and short operating-system calls. main of each tool runs symbolically on sources with symbolic bytes
while open, read and write may fail or be cut short at any call; whenever the tool exits with 0 its output files have to equal those of the
run without faults under the same path condition."""
from pplib import *
import tempfile, shutil, subprocess
SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <errno.h>
static char* ev[32]; static int n = -1, cur; static long wpos[64];
static const char* next(void) { if (n < 0) { char* s = strdup(getenv("SHIM") ? getenv("SHIM") : ""); n = 0; for (s = strtok(s, ";"); s; s = strtok(0, ";")) ev[n++] = s; } return cur < n ? ev[cur] : ""; }
int open(const char* f, int fl, ...) { static int (*r)(const char*, int, ...); if (!r) r = dlsym(RTLD_NEXT, "open"); va_list a; va_start(a, fl); int m = va_arg(a, int); char b[300]; snprintf(b, 300, "open(%s)=-1", f);
  if (!strcmp(next(), b)) { cur++; errno = EIO; return -1; } return r(f, fl, m); }
ssize_t read(int fd, void* p, size_t c) { static ssize_t (*r)(int, void*, size_t); if (!r) r = dlsym(RTLD_NEXT, "read"); if (fd < 3) return r(fd, p, c); long pos = lseek(fd, 0, SEEK_CUR), k, at; 
  if (sscanf(next(), "read=%ld at %ld", &k, &at) == 2 && at == pos) { cur++; if (k < 0) { errno = EIO; return -1; } return r(fd, p, k < (long)c ? k : (long)c); } return r(fd, p, c); }
ssize_t write(int fd, const void* p, size_t c) { static ssize_t (*r)(int, const void*, size_t); if (!r) r = dlsym(RTLD_NEXT, "write"); if (fd < 3) return r(fd, p, c); long pos = lseek(fd, 0, SEEK_CUR), k, of; 
  if (sscanf(next(), "write=-1 at %ld", &of) == 1 && of == pos) { cur++; errno = ENOSPC; return -1; } if (sscanf(next(), "write=%ld of %ld", &k, &of) == 2 && of == (long)c) { cur++; return k ? r(fd, p, k) : 0; } return r(fd, p, c); }
"""
def shim():
    d = sx.tmpdir(); so = os.path.join(d, "shim.so")
    if not os.path.exists(so):
        with open(os.path.join(d, "shim.c"), "w") as f: f.write(SHIM)
        sx.must(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so + ".t", os.path.join(d, "shim.c"), "-ldl"]); os.rename(so + ".t", so)
    return so
def replay(tool, args, files, log):
    """exit status, text and files of the natively built tool under the fault schedule"""
    d = tempfile.mkdtemp(dir=sx.tmpdir())
    try:
        for n, b in files.items():
            with open(os.path.join(d, n), "wb") as f: f.write(b)
        e = dict(os.environ, SHIM=";".join(log), LD_PRELOAD=shim())
        try: r = subprocess.run([sx.native(tool)] + args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=10); rc, out = r.returncode, r.stdout[-300:]
        except subprocess.TimeoutExpired: rc, out = "timeout", b""
        return rc, out, {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if n not in files}
    finally: shutil.rmtree(d, ignore_errors=True)
OUTS = {"scc": ["p.com", "p.map"], "scpp": ["p.o"], "sas": ["p.com"]}
def case(tool, name, parts, vals, files, faults, kinds, chunks):
    res = Result(); vs = [B("c%d" % i) for i in range(len(vals))]; pc = PC()
    for v, s in zip(vs, vals): pc.assume(inset(v, s))
    it = iter(vs); src = flat(*[next(it) if x is None else x for x in parts])
    ext = {"scc": ".c", "scpp": ".c", "sas": ".asm"}[tool]; fs = {"p" + ext: src}; fs.update(files)
    argv = [tool, "p" + ext] + (["p.o"] if tool == "scpp" else [])
    kw = dict(paths=2000000, steps=4000000, time_=700, rng=300, conc=300)
    res.sample({"tool": tool, "source": show(src)[:300], "faults": faults, "fault_kinds": kinds, "read_splits": chunks})
    def go(c, **k): return sx.run_main(mod(tool), argv, fs, pc=c, **dict(kw, **k))
    def bad(p, q, what, why):
        m = q.model(); cf = {n: conc(b, m) if isinstance(b, list) else b if isinstance(b, bytes) else b.encode() for n, b in fs.items()}; log = [x for x in p.log() if "=" in x]
        rc, out, of = replay(tool, argv[1:], cf, log)
        res.count("disagreements"); kind = ",".join(re.sub(r"\d+", "#", x) for x in log)
        res.add(viol("%s: %s: %s" % (tool, what, kind), "%s on %s with %s: %s" % (tool, name, log, why), "%s\nsource: %r\nfaults: %s\nthe natively built %s under this schedule exits with %s, prints %r, outputs %r" % (why, cf["p" + ext][:2000], log, tool, rc, out, {n: (len(b), b[:200]) for n, b in of.items()}), dict(cf, SCHEDULE=";".join(log))))
    base = {}; n0 = 0
    for p in go(pc): n0 += 1; res.count("sources_without_faults" if okpath(p) else "rejected_without_faults"); res.count(("accepted:" if okpath(p) else "rejected:") + tool + ":" + name)
    for p in go(pc, faults=faults, kinds=kinds, chunks=chunks):
        res.count("paths"); nf = any("=" in x for x in p.log())
        if nf: res.count("paths_with_faults")
        if p.st not in ("EXIT", "ABORT", "ASSERT", "DIVZERO"): bad(p, p.pc, p.st, "ends with %s %s" % (p.st, p.msg))
        elif rejected(p):
            res.count("reported")
            if not nf or not faults: # nothing failed: the status has to be that of the run without faults
                for q in go(p.pc):
                    if okpath(q): bad(p, q.pc, "status", "rejected, although nothing failed")
        else:
            res.count("exit_0")
            for q in go(p.pc):
                if not okpath(q): bad(p, q.pc, "status", "exits with 0, without the fault it ends with %s %s" % (q.st, q.code)); continue
                for o in OUTS[tool]:
                    a, b = p.file(o), q.file(o)
                    if a is None or b is None: bad(p, q.pc, "missing", "exits with 0 without having written %s" % o); continue
                    if len(a) == len(b) and all(x == y if isinstance(x, int) and isinstance(y, int) else isinstance(x, E) and isinstance(y, E) and x.same(y) for x, y in zip(a, b)): res.count("files_equal"); continue
                    m = differs(q.pc, a, b)
                    if m is not None: bad(p, q.pc, "output", "exits with 0, but %s has %d bytes and differs from that without the fault (%d bytes)" % (o, len(a), len(b)))
                    else: res.count("files_equal")
        if len(res.viols) > 3: break
    return res
D = [ord(c) for c in "0 a"]; DG = [ord(c) for c in "1234567"]
def scc_src(n): return ["int g = ", None, " + 3; char b[20];\nint f(int x)\n{\n    return x*g+1;\n}\n"] + ["int f%d(int y)\n{\n    return f(y)+%d;\n}\n" % (i, i) for i in range(n)] + ["void _start(void)\n{\n    f(1", None, " * 3 / 2); f0(2);\n}\n"]
def scpp_src(n): return ["#define A x", None, "\n#include \"i.h\"\n#if ", None, " + ", None, " > 8 || 1", None, " % 2\nA F(1)\n#else\nz\n#endif\n"] + ["A text of line %d F(A) __LINE__ 'c' \"s\"\n" % i for i in range(n)] + ["end"]
def sas_src(n): return ["\torg 0x100\n_start:\n\tmov ax, ", None, "\n\tjmp L", None, "\n"] + ["L%d:\n\tmov [bx+%d], ax\n\tdb 'x', %d\n\tdw L0\n" % (i, i, i) for i in range(n)] + ["LEND:\n\tint 0x21\n\tresb 5\n"]
if __name__ == "__main__":
    C = Check("E01", "fault_enumeration", "main of scc, scpp and sas executed symbolically (LLVM IR) on sources with symbolic bytes with failing, short and split open/read/write calls at every call; outputs of runs ending with 0 compared with the run without faults by the solver", [
        "up to 2 faults (quick) or 3 (thorough) and 2 read splits per run", "a write that is cut short delivers 0, 1, half or all but one of its bytes; a read split happens at every point", "close, printing to the console and running out of memory don't fail; sources without NUL bytes", "the host build's calls; the DOS build uses the same code above the call layer"])
    for t in OUTS: mod(t); sx.native(t)
    shim(); T = C.thorough; F = {"i.h": "#define F(x) x\nB A\n" + "// filler\n" * 4}
    def J(tool, name, parts, vals, faults, kinds, chunks, files={}): C.job("%s:%s:%d.%d.%d" % (tool, name, faults, kinds, chunks), case, tool, name, parts, [list(v) for v in vals], files, faults, kinds, chunks)
    SRC = [("scc", "small", scc_src(1), [DG, DG], {}), ("scc", "two blocks", scc_src(12), [DG, DG], {}), ("scc", "five blocks", scc_src(60), [DG, DG], {}), ("scc", "undefined", ["int f(int);\nvoid _start(void)\n{\n    ", None, "(1);\n}\n"], [[ord("f"), ord("g")]], {}),
           ("scpp", "small", scpp_src(1), [DG] * 4, F), ("scpp", "large", scpp_src(22), [DG, [49], DG, [49]], F), ("scpp", "empty", ["#if ", None, "\nx\n#endif\n"], [[48, 49]], {}), ("scpp", "include only", ["#include \"i.h\""], [], F), ("scpp", "include tail", ["a\n#include \"", None, ".h\"\n" + "b " * 200], [[ord("i"), ord("j")]], dict(F, **{"j.h": "x " * 400})),
           ("sas", "small", sas_src(10), [DG, DG], {}), ("sas", "large", sas_src(40 if T else 24), [DG, DG], {}), ("sas", "data", ["\tdb ", None, "\n\tdw 1, 2\n"], [DG], {}), ("sas", "wrong", ["\tmov ax, b", None, "\n"], [[ord("l"), ord("x")]], {})]
    for tool, name, parts, vals, files in SRC:
        J(tool, name, parts, vals, 3 if T else 2, 7, 0, files); J(tool, name, parts, vals, 1, 7, 1, files) if name not in ("five blocks",) or T else None
        if name not in ("large", "five blocks") or T: J(tool, name, parts, vals, 0, 0, 2 if T and name not in ("large", "five blocks", "two blocks", "include tail") else 1, files)
    C.bounds = {"faults_per_run": 3 if T else 2, "read_splits": 2 if T else 1, "sources": len(SRC)}
    sys.exit(C.run(need=["paths_with_faults", "reported", "exit_0", "files_equal"]))
