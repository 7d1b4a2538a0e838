"""C03: control flow in code compiled by scc."""
from ccgen import *
from cclib import *
CONDS = ["a & 1", "a & 2", "b & 1", "b < 0", "u > 100", "x", "y == 3", "!(a & 1)", "g == 7", "a & 1 && b & 1", "x || a & 2", "u > 100 && !x", "(a & 1) == 0", "(x ? a : b) & 1", "c", "k & 8"]
class Stm:
    """random statements. t records which statements run, in order; f is the fuel that bounds every loop"""
    def __init__(self, rnd, bits=4): self.r = rnd; self.n = 0; self.labels = []; self.gotos = []; self.cond = rnd.sample(CONDS, bits); self.loc = 0
    def tr(self): self.n += 1; return "t = t * 3 + %d;" % self.n
    def c(self):
        k = self.r.random()
        if k < .08: return self.r.choice(["0", "1", "f == 2", "t & 1", "f"])
        return self.r.choice(self.cond)
    def fill(self):
        n = self.r.choice([0, 0, 1, 2, 10, 22, 23, 24, 25, 26, 27, 40, 60]); return "".join(self.r.choice(["ka[1] = 3; ", "g2++; ", "ka[2] = 5; "]) for _ in range(n))
    def s(self, d, loop=False, brk=False, nl=False):
        r = self.r; k = r.random(); S = lambda **kw: self.s(d - 1, **{"loop": loop, "brk": brk, "nl": nl, **kw})
        if d <= 0:
            if loop and k < .12: return "continue;"
            if brk and k < .3: return "break;"
            if k < .36: return "return t + %d;" % r.randrange(90)
            if k < .5: self.gotos.append(None); return "{ if (f-- > 0) goto @%d; }" % (len(self.gotos) - 1)
            if k < .55: return ";"
            if k < .62: return "{ %s}" % self.fill()
            return self.tr()
        if k < .14: return "if (%s) %s" % (self.c(), S())
        if k < .30: return "if (%s) %s else %s" % (self.c(), S(), S())
        if k < .38: return "while (f-- > 0 && (%s)) %s" % (self.c(), S(loop=True, brk=True))
        if k < .44: return "for (i%d = 0; i%d < %d && f > 0; i%d++) { f--; %s }" % (d, d, r.randrange(1, 4), d, S(loop=True, brk=True))
        if k < .47: return "for (;;) { if (f-- <= 0) break; %s }" % S(loop=True, brk=True)
        if k < .50: return "for (; f > 0; f--) %s" % S(loop=False, brk=True)
        if k < .56: return "do %s while (f-- > 0 && (%s));" % (S(loop=True, brk=True), self.c())
        if k < .59: return "while (1) { if (f-- <= 0) break; %s }" % S(loop=True, brk=True)
        if k < .74:
            e = r.choice(["a & 3", "b", "x", "y & 7", "u", "t & 3", "f", "g", "c", "k & 3"]); v = r.sample([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, 100, 127, 128, -128, 255, 256, 1000, -32767, 32767], r.randrange(1, 5)) if "&" not in e and e != "f" else r.sample([0, 1, 2, 3], r.randrange(1, 4))
            if "&" not in e and e not in "ft": v = v[:3]
            parts = []; dflt = r.randrange(len(v) + 1) if r.random() < .6 else -1
            for i in range(len(v) + 1):
                if i == dflt: parts.append("default:" + (" %s" % S(brk=True) if r.random() < .8 else " " if i < len(v) else " ;"))
                if i < len(v): parts.append("case %s:" % v[i] + (" %s" % S(brk=True) + (" break;" if r.random() < .5 else "") if r.random() < .85 or i == len(v) - 1 else ""))
            return "switch (%s) { %s }" % (e, " ".join(parts))
        if k < .80: self.loc += 1; n = self.loc; return "{ int z%d = t + f; char w%d[%d]; w%d[0] = f; %s %s t = t * 3 + z%d + w%d[0]; }" % (n, n, r.randrange(1, 140), n, self.fill(), S(nl=True), n, n)
        if k < .84 and not nl: self.labels.append("L%d" % len(self.labels)); return "%s: %s" % (self.labels[-1], S())
        if k < .86: return "{ %s }" % S()
        return "{ %s }" % " ".join(S() for _ in range(r.randrange(2, 4))) if k < .95 else "{ %s %s %s}" % (self.fill(), S(), self.fill())
    def fn(self, d):
        b = " ".join(self.s(d) for _ in range(self.r.randrange(1, 3)))
        L = self.labels + ["LE"]
        for i in range(len(self.gotos)): b = b.replace("@%d;" % i, self.r.choice(L) + ";")
        loc = "int t; int f; int i1; int i2; int i3; int i4; " if self.r.random() < .8 else ""
        pre = "t = 0; f = %d; i1 = 0; i2 = 0; i3 = 0; i4 = 0; " % self.r.randrange(2, 6)
        return body(loc + pre + b + (" LE: " if "LE;" in b else " ") + "return t * 3 + f;")
GL = DECLS + "int t; int f; int i1; int i2; int i3; int i4;\n"
FRAMES = ["if ({c}) {{ {b} }} return t;", "if ({c}) {{ {b} }} else t = 2; return t;", "if ({c}) t = 3; else {{ {b} }} return t;", "while (f-- > 0 && {c}) {{ {b} }} return t;", "while (f-- > 0) {{ if ({c}) continue; {b} }} return t;", "while (f-- > 0) {{ {b} if ({c}) break; {b} }} return t;",
          "do {{ {b} }} while (f-- > 0 && {c}); return t;", "do {{ if ({c}) continue; {b} }} while (f-- > 0); return t;", "for (i1 = 0; i1 < 2 && {c}; i1++) {{ {b} }} return t + i1;", "for (i1 = 0; i1 < 3; i1++) {{ if ({c}) break; {b} }} return t + i1;", "for (i1 = 0; i1 < 2; i1++) {{ if ({c}) continue; {b} }} return t + i1;",
          "if ({c}) goto L; {b} L: return t;", "L: {b} if (f-- > 0 && {c}) goto L; return t;", "if ({c}) return 5; {b} return t;", "switch (a & 3) {{ case 0: {b} break; case 1: t = 4; case 2: {b} default: t = t + 9; }} return t;", "switch (x) {{ default: {b} break; case 1: {b} case -2: t++; }} return t;", "{c} && (t = 4); {b} return ({c}) ? t : f;",
          "int z = 4; if ({c}) {{ {b} }} return t + z;", "if ({c}) {{ int z = f; {b} t += z; }} return t;", "while (f-- > 0) {{ int z = f; if ({c}) continue; {b} t += z; }} return t;", "while (f-- > 0) {{ int z[3]; z[2] = f; {b} if ({c}) break; t += z[2]; }} return t;", "switch (b) {{ case 4: {b} case 300: case -7: t = 3; }} return t;", "return ({c}) ? ({e}) : f;", "if ({c} || ({e})) t = 8; return t;", "return ({c}) && ({e});"]
def sized(n):
    """a statement list compiled to about n bytes"""
    j = n % 4; i = (n - 5 * j) // 4
    return "g2++; " * max(i, 0) + "ka[1] = 3; " * j
def sizes(ns):
    fs = []
    for n in ns:
        for f in FRAMES:
            e = ", ".join(x for x in sized(n).strip().strip(";").split("; ") if x) or "g2"
            for c in ("a & 1", "b < u", "x"): fs.append(body("t = 0; f = 2; i1 = 0; " + f.format(c=c, b=sized(n) + "t = t * 2 + 1;", e=e + ", g2"), tag="%s with a body of %d bytes, c = %s" % (f, n, c)))
    return fs
SPECIAL = ["int z = 5; { int w[70]; w[0] = a; if (a & 1) goto E; t = w[0]; } E: return t + z;", "{ int w = a; if (a & 1) goto E; t = w; } E: return t;", "while (1) { int w = 4; while (1) { int q = 3; if (a & 1) goto E; if (b & 1) break; return q; } if (x) return w; break; } E: return t;",
           "switch (a) { case 1: { int w = 3; if (b) break; t = w; } case 2: t++; } return t;", "goto B; A: t = 1; goto E; B: t = 2; if (a) goto A; E: return t;", "for (;;) { switch (a & 3) { case 0: break; case 1: a = 2; continue; case 2: a = 0; continue; default: return 9; } break; } return t + a;",
           "switch (a & 1) { case 0: switch (b & 1) { case 0: t = 1; break; case 1: t = 2; } break; case 1: t = 3; } return t;", "switch (a) { } return 4;", "switch (a) { default: t = 4; } return t;", "switch (a) { int w; case 3: w = 2; t = w; } return t;", "switch (x) case 1: t = 4; return t;", "switch (a) { case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19: case 20: case 21: case 22: case 23: case 24: case 25: case 26: case 27: case 28: case 29: case 30: t = 1; break; case 40: t = 2; } return t;",
           "if (a) ; else t = 3; return t;", "if (a) if (b) t = 1; else t = 2; return t;", "while (a) { a = 0; t++; } return t;", "do t++; while (t < 3); return t;", "for (t = 0; t < 4; t++) ; return t;", "{ return 4; } return 5;", "if (a) { return 4; } else { return 5; } return 6;", "for (t = 0, i1 = 5; t < i1; t++, i1--) g2++; return t;", "do { if (t++ > 2) break; continue; } while (1); return t;", "while (1) { if (t++ > 2) return t; }", "switch (a) { case 'a': t = 1; break; case 0x10: t = 2; break; case -1: t = 3; break; case 3 + 4: t = 4; } return t;",
           "switch (u) { case 1: t = 1; break; case -1: t = 2; } return t;", "switch (y) { case 255: t = 1; break; case 0: t = 2; } return t;", "goto L; { int z = 3; L: t = 5; } return t;", "switch (a & 3) { case 0: while (f-- > 0) { case 1: t += 3; } break; case 2: t = 8; } return t;", "switch (a & 3) { case 0: if (b) { case 1: t += 3; } case 2: t += 8; } return t;", "L: ; if (f-- > 0) { char z[200]; z[3] = 1; goto L; } return t;", "; ; return t; ;"]
if __name__ == "__main__":
    C = Check("C03", "translation_validation", "scc's output executed symbolically on an 8086 model vs. the same C text compiled by clang for a 16-bit target and executed symbolically; every outcome of the conditions is a symbolic variable, SMT (QF_BV) decides equality of the execution trace", [
        "condition operands: all values; loops are bounded by a counter in the program (at most 5 iterations in all)", "program texts are random statement trees (seeded), a sweep of body sizes around the short jump range for each statement form, and hand-written forms", "clang 18's C semantics is the oracle"])
    rnd = random.Random(C.seed); N = 5000 if C.thorough else 900
    tr = [Stm(rnd).fn(rnd.choice([2, 3, 3, 4])) for _ in range(N)]
    sz = sizes(range(90, 150) if C.thorough else list(range(104, 140, 1))); rnd.shuffle(sz)
    if not C.thorough: sz = sz[:1400]
    sp = [body("t = 0; f = 3; i1 = 0; " + s) for s in SPECIAL]
    C.bounds = {"random_statement_trees": len(tr), "size_sweep": len(sz), "special": len(sp)}
    sx.native("scc")
    for nm, fs, n in (("special", sp, 8), ("tree", tr, 20), ("size", sz, 60)):
        for i, c in enumerate(chunks(fs, n)): C.job("%s%d" % (nm, i), run_batch, Batch("%s%d" % (nm, i), GL, c, GLOBALS, HELP))
    sys.exit(C.run(need=["path_pairs", "programs"], limits={"undecided": ("programs", 0.02)}))
