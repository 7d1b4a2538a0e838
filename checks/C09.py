"""C09: scc rejects sources with unbalanced or missing punctuation, undeclared or undefined names, misplaced break/continue/case and unterminated
constructs. The place of the defect and the characters put there are symbolic; the sources of all paths are invalid, unless stated by a condition on
the symbolic bytes, which the solver evaluates on each path that ends in acceptance (and in rejection, for the valid ones)."""
from pplib import *
PROGS = {
"expr": """int g = 3 ; int t [ 4 ] ; char * p ; struct S { int a ; char b [ 3 ] ; } q ; int f ( int x , char y ) { int i ; i = ( x + 2 ) * ( y - 1 ) ; t [ i & 3 ] = t [ ( x ) & 3 ] ; q . b [ 1 ] = y ; g = f ( t [ 1 ] , ( char ) i ) ; i = sizeof ( int ) + sizeof ( q ) ; p = ( char * ) & q . a ; if ( ! ( x && ( y || i ) ) ) { g = x ? ( i ) : ( y ) ; } return f ( f ( 1 , 2 ) , p [ i ] ) ; } void _start ( void ) { f ( g , 'b' ) ; }""",
"stmt": """int t [ 4 ] ; int g ; int h ( int n ) { int i ; for ( i = 0 ; i < n ; i ++ ) { if ( t [ i ] == 2 ) continue ; else if ( i > 9 ) break ; } while ( n -- ) { g ++ ; } do { n = n + 1 ; if ( n ) { g = 2 ; } else { g = 3 ; } } while ( n < 3 ) ; switch ( n ) { case 1 : n = 2 ; break ; case 4 : { goto out ; } default : n = 5 ; } out : return n ? sizeof ( int ) : sizeof t ; } void _start ( void ) { h ( 2 ) ; }""",
"decl": """int T ( int ) ; struct N { struct N * n ; int v ; } ; union U { int i ; char c [ 2 ] ; } ; enum { E0 , E1 = 4 } ; static const char m [ ] = "qr" ; int w [ 2 ] [ 3 ] ; int z = 5 ; int k ( struct N * a , ... ) { typedef unsigned char uc ; union U u ; uc b = 'x' ; int ( * fp ) ( int ) ; fp = T ; u . c [ 1 ] = b ; a -> n -> v = ( int ) a ; return u . i & fp ( w [ 1 ] [ 2 ] ) ; } int T ( int v ) { return k ( 0 , 1 , v ) * m [ 1 ] ; } void _start ( void ) { T ( 1 ) ; }""",
}
BR = "()[]{}"
def go(res, name, src, pc, ok, steps=2000000, sel=None, where=None):
    """ok: condition under which the source is valid (None: never)"""
    res.count("sources")
    for p in sx.run_main(mod("scc"), ["scc", "p.c"], {"p.c": src}, pc=pc, paths=100000, steps=steps, time_=600, rng=1100, conc=300):
        res.count("paths"); rej = rejected(p)
        if p.st not in ("EXIT", "ABORT", "ASSERT"): why, c = "ends with %s %s" % (p.st, p.msg), None
        elif rej:
            res.count("rejected")
            if ok is None: continue
            why, c = "valid source is rejected", ok
        else:
            res.count("accepted"); why, c = "is accepted", (None if ok is None else ~ok)
        seen = sx.true() if c is None else c
        for _ in range(20):
            m = p.pc.check(seen)
            if m is None: break
            sig = "%s: %s" % (name, re.sub(r"0x[0-9a-f]+|\d+", "#", why)[:90])
            if sel is not None: k = sel.eval(m); sig += " [%s]" % where[k]; seen = seen & ~sel.eq(k)
            report(res, sig, why, src, m, tool="scc", outname="p.com")
            if sel is None: break
        if len(res.viols) > 12: break
    return res
def replaced(prog, lo, hi):
    """one of the brackets or semicolons lo..hi of the program replaced by any other of ( ) [ ] { } or a blank: always unbalanced or unterminated"""
    res = Result(); pc = PC(); sel = B("place"); c = B("by"); toks = PROGS[prog].split(" "); js = []; src = []
    for i, t in enumerate(toks):
        if t in BR or t == ";" and not (toks[i + 1:i + 2] and toks[i + 1] in ("*", "-", "+", "&", "(", "[", "++", "--", "{")): js.append(i)
    js = js[lo:hi]
    if not js: return res
    pc.assume(inset(c, [ord(x) for x in BR + " "])); pc.assume(inset(sel, js))
    for i, t in enumerate(toks):
        if i in js:
            o = ord(t[0]); pc.assume(~(sel.eq(i) & c.eq(o))); src.append(sel.eq(i).ite(c, const(o, 8)))
            if t == ";": pc.assume(~(sel.eq(i) & inset(c, [ord("["), ord("]")])) if 0 else sel.eq(i).eq(sel.eq(i)))
        else: src += flat(t)
        src += flat(" ")
    res.sample({"program": prog, "places": [js[0], js[-1]]}); return go(res, "bracket replaced in " + prog, src, pc, None, sel=sel, where={i: " ".join(toks[max(0, i - 2):i] + ["(%s)" % toks[i]] + toks[i + 1:i + 3]) for i in js})
def inserted(prog, lo, hi):
    """a bracket inserted anywhere: always unbalanced"""
    res = Result(); pc = PC(); sel = B("place"); c = B("by"); toks = PROGS[prog].split(" "); src = []; js = list(range(lo, min(hi, len(toks))))
    if not js: return res
    pc.assume(inset(c, [ord(x) for x in BR])); pc.assume(inset(sel, js))
    for i, t in enumerate(toks): src += flat(" ") + ([sel.eq(i).ite(c, const(32, 8))] if i in js else []) + flat(" ", t)
    res.sample({"program": prog, "places": [js[0], js[-1]]}); return go(res, "bracket inserted in " + prog, src, pc, None)
TRUNC = """int g; char* s; int f(int x, int y) { if (x) { while (y) { g = 'a'; s = "b\\"c" "d"; /* e * f */ y = f(x - 1, (y)); // g
s = "\\x41\\n"; do { x = x + 0x1f; } while (x < 07); switch (g) { case 3: break; default: g = '\\''; } } } return 1; } void _start(void) { f(1, 2); }"""
def truncated(k):
    """the source ends after k characters and one or two free bytes; at least two brackets are still open"""
    res = Result(); v = B("c"); src = flat(TRUNC[:k], v); pc = PC(); pc.assume(~v.eq(0)); return go(res, "truncated", src, pc, None)
IDC = [(48, 57), (65, 90), (95, 95), (97, 122)]
N0 = """int va; int vb; int vq[2]; struct vh { int vi; int vx; } vs; enum { ve = 2 }; int ua(int a) { int vd; vd = a; vg: return vd; } int ub(int vk) { { int vy; vy = 1; } return vk; }
int f(int vp) { int vc; { int vr; vr = 2; } %s return 1; } int vf; int ud(int a) { return a; } void _start(void) { f(1); }
"""
# template with @ as the free character, declared characters
USES = {"rvalue": ("vc = v@;", "abepc"), "lvalue": ("v@ = 1;", "abpc"), "operand": ("va = 2 * v@ + 1;", "abepc"), "arg": ("va = ua(v@);", "abepc"), "index": ("va = vq[v@];", "abepc"), "address": ("{ int* z; z = &v@; }", "abpc"), "inc": ("v@++;", "abpc"), "cond": ("if (v@) va = 1;", "abepc"), "after": ("{ int v@; } va = vc;", None), "member": ("va = vs.v@;", "ix"), "pmember": ("va = (&vs)->v@;", "ix"), "maddr": ("{ int* z; z = &vs.v@; }", "ix"), "call": ("va = u@(2);", "ab"), "callstmt": ("u@(2);", "ab"), "faddr": ("{ int (*z)(int); z = u@; va = z(1); }", "ab"), "goto": ("goto v@; vl: va = 1; vm: va = 2;", "lm"), "tag": ("{ struct v@ z; z.vi = 1; }", "h"), "sizetag": ("va = sizeof(struct v@);", "h"), "case": ("switch (vp) { case v@: va = 1; }", "e"), "deref": ("va = *v@;", "q"), "dim": ("{ char z[v@]; z[1] = 2; }", "e"), "forv": ("for (v@ = 0; va; va--) vb = 1;", "abpc"), "ret": ("return v@;", "abepc"), "short": ("va = 0 && v@;", "abepcqsh"[:5]), "dead": ("goto vl; va = v@; vl: va = 1;", "abepc")}
def use(name):
    t, decl = USES[name]; res = Result(); pc = PC(); c = B("name"); pc.assume(inset(c, IDC)); src = flat(N0 % t); i = src.index(ord("@")); src[i] = c
    if decl is None: ok = ~c.eq(ord("s")) | c.eq(ord("s"))
    else: ok = inset(c, [ord(x) for x in decl])
    if name in ("call", "callstmt"): pc.assume(~c.eq(ord("d"))) # declared implicitly by the call, defined later
    # names of other kinds (arrays, structures, labels as values) are decided by types, not declarations
    pc.assume(~inset(c, [ord(x) for x in "qs" if x not in (decl or "")])) if name not in ("after", "goto", "member", "pmember", "maddr", "tag", "sizetag", "call", "callstmt", "faddr") else None
    res.sample({"use": t, "declared": decl}); return go(res, "undeclared name as " + name, src, pc, ok)
def undefined():
    res = Result(); pc = PC(); c = B("name"); pc.assume(inset(c, IDC)); src = flat("int ua(int a) { return a; } int u", c, "(int a); int f(int x) { return u", c, "(x) + ua(x); } int ub(int a); int main(void) { return ub(1); } int ub(int b) { return 2; } void _start(void) { f(1); }\n")
    return go(res, "call of an undefined function", src, pc, inset(c, [97, 98]))
ST = ["break;", "continue;", "case 3:;", "default:;", "goto l;", "return;", "case 3+x:;", "goto k;", ";"]
# context -> which of the statements are valid there (l is a label of the function, k isn't)
CTX = {"body": ("", "", "010011001"[0:0] or "000010001"), "if": ("if (x) { ", "}", "000010001"), "while": ("while (x) { ", "}", "110010001"), "do": ("do { ", "} while (x);", "110010001"), "for": ("for (;x;) { ", "}", "110010001"), "switch": ("switch (x) { case 1: ", "}", "101110001"), "switch in while": ("while (x) { switch (x) { case 1: ", "} }", "111110001"), "while in switch": ("switch (x) { case 1: while (x) { ", "} }", None), "after while": ("while (x) { x--; } ", "", "000010001"), "after switch": ("switch (x) { case 1: break; } ", "", "000010001"), "after default": ("switch (x) { default: ", "}", "101010001"), "nested after": ("while (x) { while (x) x--; } ", "", "000010001"), "else": ("while (x) { if (x) x--; else { ", "} }", "110010001")}
def stmt(ctx):
    a, b, valid = CTX[ctx]; res = Result(); pc = PC(); s = B("statement")
    if valid is None: valid = "110010001"; pc.assume(~inset(s, [2, 3])) # cases nested in other statements: outside the claim
    pc.assume(s.ult(len(ST))); pc.assume(~s.eq(5)); src = flat("int g; int f(int x) { l: g = 1; ", a) + pad(s, [t.encode() for t in ST]) + flat(" ", b, " g = 2; return g; } int h(int x) { k: return h(x); } void _start(void) { f(1); h(2); }\n")
    ok = inset(s, [i for i in range(len(ST)) if valid[i] == "1"]); res.sample({"before": a, "statements": ST}); return go(res, "statement " + ctx, src, pc, ok)
if __name__ == "__main__":
    C = Check("C09", "other", "scc's main executed symbolically (LLVM IR) on sources whose place of a defect and whose wrong characters are symbolic bytes; SMT decides on every accepting path whether the source can be one of the invalid ones", [
        "one defect per source: a bracket replaced or inserted, a semicolon replaced by a bracket or a blank, the end of the source, one name, one statement", "three programs that contain every kind of bracket and statement", "the host build of scc"])
    mod("scc"); sx.native("scc")
    for n in PROGS:
        for lo in range(0, 140, 5): C.job("replace:%s.%d" % (n, lo), replaced, n, lo, lo + 5)
        for lo in range(0, 260, 8): C.job("insert:%s.%d" % (n, lo), inserted, n, lo, lo + 8)
    first = TRUNC.index("while (y) {") + 11; last = TRUNC.index("} } return")
    for k in range(first, last, 1): C.job("truncated:%d" % k, truncated, k)
    for n in USES: C.job("use:" + n, use, n)
    C.job("undefined", undefined)
    for n in CTX: C.job("stmt:" + n, stmt, n)
    C.bounds = {"defects_per_source": 1}
    sys.exit(C.run(need=["sources", "paths", "accepted", "rejected"]))
