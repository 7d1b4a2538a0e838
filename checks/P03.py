"""P03: macro expansion. Macro programs whose identifiers and digits are symbolic; the output's token sequence is compared with a
reference preprocessor (cpp_ref.py) for every choice of the identifiers, digits staying symbolic on both sides."""
from pplib import *
import cpp_ref
from cpp_ref import PP, Any, Bad, lex, spell
DG, LT = 0xe000, 0xe100
LIMITS = ("NextFreeTokenList", "MAX_NEST", "TOKEN_QUEUE_MAX", "StrPos", "ARGUMENT_MAX", "MACRO_MAX", "ID_MAX")
class Gen:
    """random macro programs: a list of lines, private-use characters standing for symbolic digits and letters"""
    def __init__(self, r, letters, digits, weird): self.r = r; self.nl = letters; self.nd = digits; self.l = 0; self.d = 0; self.alpha = []; self.weird = weird
    def ident(self, fixed="ABFGHExyp"):
        if self.l < self.nl and self.r.random() < .5:
            self.l += 1; self.alpha.append(self.r.choice(["ABFGHp", "AFGp", "ABEp", "AFxp", "FGH", "ABxy", "AEFGHx"])); return chr(LT + self.l - 1)
        return self.r.choice(fixed)
    def num(self):
        if self.d < self.nd and self.r.random() < .6: self.d += 1; return chr(DG + self.d - 1)
        return self.r.choice(["0", "7", "12", "3"])
    def sp(self): return self.r.choice(["", "", " ", " ", " ", "\t", "/**/", " /* A */ "])
    def toks(self, n, params, body, d=0):
        r = self.r; o = []
        for _ in range(n):
            k = r.random()
            if k < .32: o.append(self.ident("".join(params) * 3 + "ABFGHEp" if params else "ABFGHExp"))
            elif k < .45: o.append(self.num())
            elif k < .55: o.append(r.choice(["+", "-", ";", "*", "==", "&&", "{", "<", "="]))
            elif k < .58: o.append(r.choice(['"A x"', "'A'", '"\\""', "'\\''", '"//"', '"F(1)"', "'\"'"]))
            elif k < .8 and d < 2:
                f = self.ident("FGHFGHAp"); na = {"F": 1, "G": 2, "H": 0}.get(f) if f in "FGH" else r.choice([0, 1, 1, 2])
                if r.random() < .03: na += r.choice([-1, 1])
                o.append(f + self.gap(body) + "(" + ",".join(self.arg(params, body, d + 1) for _ in range(max(na, 0))) + ")")
            elif k < .86: o.append("(" + self.toks(2, params, body, d + 1) + ")")
            elif k < .92 and params and body: o.append("#" + r.choice(["", " "]) + r.choice(params))
            elif body and k < .98:
                pool = [p for p in (params or [])] * 3 + ["A", "B", "F", "p", "1", "+", "<", "_"]
                o.append(r.choice(pool) + r.choice(["##", " ## ", "## "]) + r.choice(pool + ["=", "2"]) + (r.choice(["##"]) + r.choice(pool) if r.random() < .2 else ""))
            elif self.weird: o.append(r.choice([",", "(", ")"]))
            else: o.append("p")
        s = ""
        for t in o:
            g = self.sp()
            if not g and s and t and (cpp_ref.lex(s[-1:] + t[:1]) and len(cpp_ref.lex(s[-1:] + t[:1])) < 2 or s[-1:] + t[:1] in ("//", "/*") or t[0] >= "\ue000" or s[-1] >= "\ue000"): g = " "
            s += g + t
        return s
    def gap(self, body): return self.r.choice(["", "", "", " ", "/**/"] + ([] if body else ["\n", " \n "]))
    def arg(self, params, body, d):
        k = self.r.random()
        if k < .1: return ""
        s = self.toks(self.r.choice([1, 1, 1, 2, 3]), params, body, d)
        if k < .2: s = " " + s + " "
        if k > .93: s = "(" + s + "," + self.num() + ")"
        if k > .97 and not body: s = s + "\n"
        return s
    def define(self, n, ps, k): return ("define", n, "%s%s%s%s" % (n, "" if ps is None else self.r.choice(["(", "( "]) + self.r.choice([",", " , "]).join(ps) + ")", self.r.choice([" ", " ", "\t", " /**/"]), self.toks(k, ps, True) ))
    def program(self):
        r = self.r; defs = []
        shape = {"A": None, "B": None, "F": r.choice([["x"], ["y"]]), "G": r.choice([["x", "y"], ["x", "y"], ["y", "x"]]), "H": [], "E": None}
        for n, ps in shape.items():
            if r.random() < .3: continue
            k = 0 if n == "E" and r.random() < .7 else r.choice([0, 1, 1, 2, 2, 3])
            defs.append(self.define(n, ps, k))
        r.shuffle(defs); out = defs
        for _ in range(r.choice([1, 1, 2])):
            out = out + [("text", self.toks(r.choice([2, 3, 4]), None, False) + r.choice(["", ";", " ;"]))]
            if r.random() < .5 and defs:
                n = r.choice(defs)[1]; out = out + [("undef", n, "")]
                if r.random() < .6:
                    ps = shape[n] if r.random() < .6 else r.choice([None, ["x"], ["x", "y"], []])
                    out = out + [self.define(n, ps, r.choice([1, 2, 2]))]
        if out[-1][0] != "text": out = out + [("text", self.toks(3, None, False))]
        return out
def expected(prog, sub):
    """(tokens, None) or None when the program must be rejected; raises Any"""
    pp = PP(); out = []
    for it in prog:
        t = sub(it[-1])
        if it[0] == "define":
            if it[1] in pp.m: raise Any
            t = re.sub(r"/\*.*?\*/", " ", t); pp.define(t)
        elif it[0] == "undef": pp.undef(it[1])
        else: out += pp.top(re.sub(r"/\*.*?\*/", " ", t))
        if len(out) > 150: raise Any
    return out
def text(prog): return "".join(("#define " + it[2] if it[0] == "define" else "#undef " + it[1] if it[0] == "undef" else it[1]) + "\n" for it in prog)
def one(res, prog, alpha, nd, sigp=""):
    t = text(prog); L = [B("id%d" % i) for i in range(len(alpha))]; D = [B("digit%d" % i) for i in range(nd)]; pc = PC()
    for l, a in zip(L, alpha): pc.assume(inset(l, [ord(c) for c in a]))
    for d in D: pc.assume(~d.ult(48) & d.ule(57))
    src = [L[ord(c) - LT] if ord(c) >= LT else D[ord(c) - DG] if ord(c) >= DG else ord(c) for c in t]
    res.count("programs"); res.sample(re.sub("[\ue100-\ue1ff]", lambda m: "[" + alpha[ord(m.group()) - LT] + "]", re.sub("[\ue000-\ue0ff]", "[0-9]", t)))
    for p in run(src, pc):
        res.count("paths")
        def ref(f):
            ch = []
            for l, a in zip(L, alpha):
                for i, c in enumerate(a):
                    if i == len(a) - 1 or f.dec(l.eq(ord(c))): ch.append(c); break
            sub = lambda s: "".join(ch[ord(c) - LT] if ord(c) >= LT else c for c in s)
            try: return ch, expected(prog, sub)
            except Bad: return ch, None
            except Any: return ch, "any"
        for q, (ch, exp) in forks(p.pc, ref):
            res.count("expansions"); mdl = None
            sig = sigp + re.sub("[\ue000-\ue0ff]", "#", "".join(ch[ord(c) - LT] if ord(c) >= LT else c for c in t))
            if p.st not in ("EXIT", "ABORT", "ASSERT"): mdl = q.model(); why = "ends with %s %s" % (p.st, p.msg)
            elif exp == "any": res.count("outside_claim"); continue
            elif exp is None:
                res.count("must_reject")
                if not rejected(p): mdl = q.model(); why = "accepted, a macro call has the wrong number of arguments"
            elif rejected(p):
                if any(l in str(p.msg) for l in LIMITS) and (len(lex(t)) > 70 or len(exp) > 40): res.count("limit"); continue
                mdl = q.model(); why = "rejected (%s), expands to %s" % (p.msg or show(p.out()), " ".join(exp))
            else:
                m = None; got = ""
                for b in p.file("p.o"):
                    if isinstance(b, int): got += chr(b); continue
                    k = next((i for i, d in enumerate(D) if d.same(b)), None)
                    if k is not None: got += chr(DG + k); continue
                    if m is None: m = q.model()
                    got += chr(b.eval(m))
                g = spell(lex(got)); res.count("compared")
                if g != exp:
                    mdl = m or q.model(); ins = lambda s: "".join(chr(D[ord(c) - DG].eval(mdl)) if DG <= ord(c) < LT else c for c in s)
                    why = "output has the tokens %s, C prescribes %s" % (" ".join(map(ins, g)), " ".join(map(ins, exp)))
            if mdl is not None: report(res, sig, why, src, mdl)
            if len(res.viols) > 5: return
def rnds(seed, n, letters, digits, weird):
    res = Result()
    for i in range(n):
        r = random.Random("%s.%s" % (seed, i)); g = Gen(r, letters, digits, weird and i % 4 == 0)
        try: prog = g.program()
        except Any: continue
        one(res, prog, g.alpha, g.d)
        if len(res.viols) > 5: break
    return res
# hand-written programs around the rules of C 6.10.3; ? is a symbolic identifier, @ a symbolic digit
HAND = """
#define A B @|#define B A ?|A ? B
#define F(x) x ? (x)|#define A F|A(@) F(A)(@) ?(1)
#define F(x) #x ? x|#define A @|F( A  ?+"q\\n" ) F() F((?,@)) F('"')
#define F(x) A##x ?##x x##@|#define A @|F(A) F(?) F() F(1)
#define G(x,y) x##y ? y##x|#define AB 5|#define A @|G(A,B) G(?,) G(,?) G(,) G(@,@)
#define F(x) ?(x)|#define G(x,y) x-y|#define H(x) <x>|G(H(@),?(2)) F(@)
#define H() ?|#define A H|H() H( ) A() A () H?
#define F(x) x-x|-F(-@) +F(+?) F(F)(@)
#define A -|#define B +|-A-?@ B?B A=A @?A
#define E|#define A E E?E|E?E A(E)|E E?
#define F(x) (?)x|#undef F|F(@) ?|#define F ? @|F(?)|#undef A|F
#define F(x) x|F(?|@)|?(F|(@)|)
#define A(x) x #x|#define B(x) A(x) #x|#define C @|B(C ?) B(A) B("?\\\\")
#define F(x)x?|#define A(x) [x]|F(@)F(p)F (p)|#define X() F|X()(@)
#define G(x,y) F(x)F(y)|#define F(x) {x?}|G(@,p) G((1,?),(@)) G(,)
#define F(x) p.x->?.x|#define A .@|F(A) ?.A @A
#define A ?##@|#define C(x) x##@|A C(p) C(?)
#define A "?"|#define F(x) "x" 'x' #x x|F(A) F(?) A'A'
#define F(x,y) x ## y ## x|F(?,@) F(p,) F(,q) F(a,?)
#define F(x) <#x>|F(a/**/?) F( /**/ @ /**/ ) F(a|?)
#define A(x,y) x=y|#define B(x) A(x,?)|#define C(x,y) B(x) y|C(1,2) C(?,A(@,4)) C((1,2),q)
#define str(x) #x|#define xstr(x) str(x)|#define A @ ?|str(A) xstr(A) xstr(str(A)) xstr("?")
#define A A ?|#define B(x) B x ?|A B(A) B(@)
#define F(x) G(x,?)|#define G(x,y) y x|F(@) F((p)) F(#) F(=)
#define A ?|#define p A|A p ?|#undef p|A p ?|#define p @|A p ?
#define F( x , y ) x y|F( @ , ? )F(@,?)F((@,?),)
#define CHK(x) REP(x,#x)|#define REP(c,s) c?s:@|CHK(? < 3) CHK("a\\"b")
#define A __LINE_|#define B(x) x##_|#define C(x,y) x##y|B(A) C(__LI,?) C(d,efined)
#define F(x) if (x) { x; } else ?(x)|F(a==?) F(p!=@)
""".strip().split("\n")
def hand(i, T):
    res = Result(); h = HAND[i]; prog = []
    for alpha in ("AFGHBp", "ApBxyE", "FEGqC1") if T else (("AFGHp", "ABxyE")[i % 2], "FEGqC1"[i % 2:]):
        if "1" in alpha and "##" not in h: alpha = alpha.replace("1", "A")
        prog = []; nl = nd = 0; s = ""
        for c in h:
            if c == "?": s += chr(LT + nl) if nl < (4 if T else 3) else "p"; nl += 1
            elif c == "@": s += chr(DG + nd); nd += 1
            else: s += c
        for l in s.split("|"):
            if l.startswith("#define "): prog.append(("define", re.match(r"\w+", l[8:]).group(), l[8:]))
            elif l.startswith("#undef "): prog.append(("undef", l[7:], ""))
            elif prog and prog[-1][0] == "text": prog[-1] = ("text", prog[-1][1] + "\n" + l)
            else: prog.append(("text", l))
        one(res, prog, [alpha] * min(nl, 4 if T else 3), nd)
    return res
def known():
    """findings recorded in known_findings.jsonl: arguments are expanded when they are used"""
    res = Result()
    for sig, src, exp in [("own argument: f(f(1))", "#define f(x) x+1\nf(f(1))\n", "1+1+1"), ("comma from an argument's macro: g(P)", "#define P 1,2\n#define h(x,y) x-y\n#define g(x) h(x)\ng(P)\n", "1-2")]:
        d = B("d"); pc = PC(); pc.assume(d.eq(10))
        for p in run(flat(src[:-1], [d]), pc):
            got = None if rejected(p) else re.sub(r"\s", "", show(p.file("p.o"), p.pc.model()))
            res.count("known_cases")
            if got != exp: report(res, sig, "rejected" if got is None else "output is %s, C prescribes %s" % (got, exp), flat(src), p.pc.model())
    return res
if __name__ == "__main__":
    C = Check("P03", "translation_validation", "scpp's main executed symbolically on macro programs with symbolic identifiers and digits; on every path the output tokens are compared with a reference preprocessor for every feasible choice of identifiers", [
        "up to 4 symbolic identifiers (from sets of 3 to 7 names) and 4 symbolic digits per program; program shapes: hand-written and random (seeded)", "programs within scpp's limits (16 names, 128 stored tokens, 10 nested replacements)", "operands of ## with more than one token are outside the claim (scpp rejects them), results C leaves undefined or unspecified are not compared",
        "calls of a macro within its own argument, and commas or parentheses of a call supplied by a macro in an argument, are the recorded findings and not compared elsewhere"])
    mod(); sx.native("scpp"); T = C.thorough
    C.bounds = {"symbolic_identifiers": 4 if T else 3, "symbolic_digits": 4, "hand_written": len(HAND), "random_programs": (120 if T else 16) * (40 if T else 20)}
    for i in range(len(HAND)): C.job("hand%d" % i, hand, i, T)
    C.job("known", known)
    for i in range(120 if T else 16): C.job("rnd%d" % i, rnds, C.seed * 1000 + i, 40 if T else 20, 4 if T and i % 2 else 3, 4, i % 2)
    sys.exit(C.run(need=["programs", "compared", "must_reject", "known_cases"]))
