"""Engine validation: the repository's own test inputs through the engine and through the real gcc-built tools must give the same bytes."""
import sys, os, glob, time; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx
bad = 0; n = 0
def same(tool, args, files, tag):
    global bad, n
    m = mods.setdefault(tool, None) or sx.Module(sx.tool_bc(tool)); mods[tool] = m
    t = time.time(); ps, why = sx.run_main(m, [tool] + args, files, steps=3000000000, time_=600, allow_incomplete=True); t = time.time() - t
    r = sx.run_native(tool, args, files); n += 1
    p = ps[0]; ok = len(ps) == 1 and p.st == "EXIT" and (p.code & 255) == r.rc
    for f in set(p.files()) | set(r.files):
        a = p.file(f); a = bytes(a) if a is not None else None
        if a != r.files.get(f): ok = False; print("   file differs", f, len(a or b""), len(r.files.get(f) or b""))
    o = bytes(p.out())
    if o.replace(b"\r", b"") != r.out.replace(b"\r", b""): ok = False; print("  out", o[:200], r.out[:200])
    if not ok: bad += 1
    print("%-5s %s rc=%s engine=%s %s steps=%d %.2fs" % ("ok" if ok else "DIFF", tag, r.rc, p.st, p.msg, p.steps, t))
mods = {}
R = sx.REPO
rd = lambda p: open(os.path.join(R, p), "rb").read()
for t in ("scc", "scpp", "sas"): same("scc", [t + ".c", "o.com"], {t + ".c": rd(t + ".c")}, "scc " + t)
for p in sorted(glob.glob(R + "/test/scc/*.c")):
    if os.path.basename(p) in ("testlib.c",): continue
    b = os.path.basename(p); same("scc", [b, "o.com"], {b: open(p, "rb").read()}, "scc " + b)
for p in sorted(glob.glob(R + "/test/scpp/*.in")):
    b = os.path.basename(p); same("scpp", [b, "o.i"], {b: open(p, "rb").read(), "inc1.h": rd("test/scpp/inc1.h")}, "scpp " + b)
same("scpp", ["sim86.c", "sim86.i"], {"sim86.c": rd("sim86.c"), "lib.h": rd("lib.h")}, "scpp sim86.c")
for b in ("sasm.asm", "scc-self.asm"): same("sas", [b, "o.bin"], {b: rd("test/sas/" + b)}, "sas " + b)
d = sx.tmpdir()
com = sx.run_native("scc", ["scc.c", "scc.com"], {"scc.c": rd("scc.c")}).files["scc.com"]
src = b"int x; void _start(void){ x = 3; }\n"
same("sim86", ["scc.com", "t.c", "t.com"], {"scc.com": com, "t.c": src}, "sim86 scc.com")
print("%d runs, %d differ" % (n, bad)); sys.exit(1 if bad else 0)
