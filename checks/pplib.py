"""scpp checks: scpp's main (LLVM IR) executed symbolically on source files with symbolic bytes, against a reference written
from the C standard and evaluated under the same path conditions."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx, itertools, random, re
from sx import var, const, conj, disj, inset, PC, E
from check import Check, Result, viol
_m = {}
def mod(tool="scpp"):
    if tool not in _m: _m[tool] = sx.Module(sx.tool_bc(tool))
    return _m[tool]
def B(n): return var(n, 8)
def conc(src, mdl): return bytes(b if isinstance(b, int) else b.eval(mdl) for b in src)
def flat(*parts):
    out = []
    for p in parts: out += list(p.encode("latin1")) if isinstance(p, str) else list(p) if isinstance(p, (bytes, list, tuple)) else [p]
    return out
def run(src, pc=None, files=None, tool="scpp", argv=None, paths=600000, steps=4000000, time_=600, **kw):
    fs = {"p.c": src}; fs.update(files or {})
    return sx.run_main(mod(tool), argv or [tool, "p.c", "p.o"], fs, pc=pc, paths=paths, steps=steps, time_=time_, rng=300, conc=300, **kw)
def okpath(p): return p.st == "EXIT" and isinstance(p.code, int) and p.code == 0
def rejected(p): return p.st in ("ABORT", "ASSERT", "DIVZERO") or p.st == "EXIT" and isinstance(p.code, int) and p.code != 0
def report(res, sig, why, src, mdl, files=None, tool="scpp", outname="p.o", asan=False):
    """a violation, with the real tool's behaviour on the concrete input"""
    text = conc(src, mdl); fs = {"p.c": text}
    for n, b in (files or {}).items(): fs[n] = conc(b, mdl) if isinstance(b, list) else b if isinstance(b, bytes) else b.encode()
    r = sx.run_native(tool, ["p.c", outname], fs, asan=asan, timeout=10)
    res.count("disagreements")
    res.add(viol(sig, "%s: %s" % (sig, why), "%s\ninput p.c: %r\nthe natively built %s exits with %s, prints %r, output %r" % (why, text[:3000], tool, r.rc, r.out[-300:], (r.files.get(outname) or b"")[:600]), fs))
class Fork:
    """decisions of a reference evaluated under path conditions: explored in full, every feasible outcome"""
    def __init__(self, pc, script): self.pc = pc; self.script = script; self.i = 0; self.todo = []; self.taken = []
    def dec(self, c):
        if isinstance(c, (bool, int)): return bool(c)
        v = c.val
        if v is not None: return bool(v)
        if self.i < len(self.script): r = self.script[self.i]; self.i += 1; self.taken.append(r); self.pc.assume(c if r else ~c); return r
        t = self.pc.check(c); f = self.pc.check(~c)
        if t is not None and f is not None: self.todo.append(self.taken + [False]); self.taken.append(True); self.i += 1; self.pc.assume(c); return True
        self.i += 1; self.taken.append(t is not None); return t is not None
def forks(pc, fn):
    """every (path condition, result) of fn(fork) under pc"""
    work = [[]]
    while work:
        s = work.pop(); f = Fork(pc.clone(), s); r = fn(f); work += f.todo; yield f.pc, r
def differs(pc, a, b):
    """a model in which the byte sequences differ, or None"""
    if len(a) != len(b): return pc.model()
    ds = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y: return pc.model()
        elif not (isinstance(x, E) and isinstance(y, E) and x.same(y)): ds.append(sx.bits(x, 8).ne(sx.bits(y, 8)))
    return pc.check(disj(ds)) if ds else None
def show(bs, mdl=None): return "".join(chr(b) if isinstance(b, int) else "?" if mdl is None else chr(b.eval(mdl)) for b in bs)
def merge(r, q):
    r.viols += q.viols
    for k, v in q.n.items(): r.count(k, v)
    for s in q.samples: r.sample(s)
    return r
bits = sx.bits
def pad(sel, alts):
    """alternatives (lists of bytes), left-padded with blanks, selected by sel"""
    w = max(map(len, alts)); ts = [[32] * (w - len(t)) + list(t) for t in alts]; out = []
    for i in range(w):
        col = [t[i] for t in ts]
        if all(isinstance(c, int) and c == col[0] for c in col): out.append(col[0]); continue
        e = bits(col[0], 8)
        for k in range(1, len(col)): e = sel.eq(k).ite(bits(col[k], 8), e)
        out.append(e.val if e.val is not None else e)
    return out
