"""C07: white space, comments and read boundaries never change what scc produces. One gap between two tokens at a time is replaced by symbolic bytes;
the output program and the map have to be the same on every path."""
from pplib import *
PROGS = {
"ops": """int g = - 3 ; char s [ ] = "a\\x41" "b" ; unsigned u ; struct S { int a ; char b [ 3 ] ; } q ; enum { E0 , E1 = 0x1F , E2 } ; int f ( int x , char y ) { int i ; i = x << 2 >> 1 ; i <<= 1 ; i >>= y ; i += x -- - - 3 ; i -= ++ x ; i *= 010 ; i /= 7 ; i %= 5 ; i &= ~ x ; i |= ! y ; i ^= 'c' ; g = x < y ? x : y <= 3 && x >= 1 || x != y ^ x == 1 & y | 2 ; q . a = & g - & i ; return i + - x * s [ 1 ] / 2 % 3 ; } void _start ( void ) { f ( 1 , 'b' ) ; }""",
"stmt": """int t [ 4 ] ; char * p ; int h ( int n ) { int i ; for ( i = 0 ; i < n ; i ++ ) { if ( t [ i ] == 2 ) continue ; else if ( i > 9 ) break ; } while ( n -- ) ; do { n = n + 1 ; } while ( n < 3 ) ; switch ( n ) { case 1 : n = 2 ; break ; case '\\n' : case 0x10 : goto out ; default : n = 5 ; } out : return n ? sizeof ( int ) : sizeof t ; } void _start ( void ) { p = "x" /* */ ; * p = 3 ; h ( 2 ) ; _emit 0xB4 _emit 0x4C }""".replace(" /* */", ""),
"decl": """int T ( int ) ; struct N { struct N * n ; int v ; } ; union U { int i ; char c [ 2 ] ; } ; static const char m [ ] = "q\\"/*\\\\" ; int w [ 2 ] [ 3 ] ; int z = - 5 ; int k ( struct N * a , ... ) { typedef unsigned char uc ; union U u ; uc b = 'x' ; u . c [ 1 ] = b ; a -> n -> v = ( int ) a ; ( * a ) . v = w [ 1 ] [ 2 ] , u . i ++ ; return u . i & 0xffff ; } int T ( int v ) { return k ( 0 , 1 , v ) * m [ 1 ] ; } void _start ( void ) { T ( - 1 ) ; }""",
}
def toks(s): return re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\S+', s)
SAFE = set("( ) ; { } [ ] , ~".split())
def mayjoin(a, b):
    w = lambda x: x[0].isalnum() or x[0] == "_"
    if a in SAFE or b in SAFE: return not (a == "~" and False)
    if w(a) != w(b): return not (a[0] in "'\"" or b[0] in "'\"") and a != "." and b != "." and a != "..." and b != "..."
    return False
def wspace(v): return inset(v, [9, 10, 13, 32])
def sep(kind, free):
    """separator with free bytes and the condition on them"""
    n = [0]
    def v(): n[0] += 1; return B("w%d" % n[0])
    if kind == "ws2": a, b = v(), v(); return [a, b], [wspace(a), wspace(b)]
    if kind == "ws3": a, b, c = v(), v(), v(); return [a, b, c], [wspace(a), wspace(b), wspace(c)]
    if kind == "ctl": a = v(); return [a], [inset(a, [9, 10, 11, 12, 13, 32])]
    nz = lambda a: a.ne(0)
    if kind == "block": a, b = v(), v(); return flat("/*", a, b, "*/"), [nz(a), nz(b), ~(a.eq(42) & b.eq(47))]
    if kind == "block1": a, b = v(), v(); return flat("/*", a, "*/", b), [nz(a), wspace(b)]
    if kind == "blockstar": a, b = v(), v(); return flat("/**", a, b, "**/"), [nz(a), nz(b), a.ne(47), ~(a.eq(42) & b.eq(47))]
    if kind == "line": a, b = v(), v(); return flat("//", a, b, "\n"), [nz(a), nz(b), a.ne(10), b.ne(10), b.ne(92), ~(a.eq(13) | a.eq(92)), b.ne(13)]
    if kind == "mix": a, b, c = v(), v(), v(); return flat(a, "/*", b, "*/", "//*\n", c), [wspace(a), nz(b), wspace(c)]
    if kind == "mix2": a, b = v(), v(); return flat("//", a, "\n/*//*/", b, "// \"\n\n"), [nz(a), a.ne(10), a.ne(92), wspace(b)]
    if kind == "none": return [], []
KINDS = ["ws2", "block", "line", "mix", "none", "ctl", "mix2", "blockstar"]
def run_(src, pc=None, **kw): return sx.run_main(mod("scc"), ["scc", "p.c"], {"p.c": src}, pc=pc, **dict(dict(paths=200000, steps=20000000, time_=300, rng=300, conc=300), **kw))
def outs(p): return p.file("p.com"), p.file("p.map")
def case(pn, gaps, kinds):
    res = Result(); ts = toks(PROGS[pn]); base = list(run_(flat(" ".join(ts) + "\n")))
    if len(base) != 1 or not okpath(base[0]): res.add(viol("base", "scc rejects the program %s" % pn, PROGS[pn], {"p.c": PROGS[pn].encode()})); return res
    bc, bm = outs(base[0])
    for g in gaps:
        a = " ".join(ts[:g]); b = " ".join(ts[g:]) + "\n"
        for k in kinds:
            if k == "none" and (g in (0, len(ts)) or not mayjoin(ts[g - 1], ts[g])): continue
            s, cs = sep(k, 0); pc = PC()
            for c in cs: pc.assume(c)
            if g and ts[g - 1][-1] == "/" and s and s[0] == 47: s = [32] + s # else the division sign would begin the comment
            src = flat(a, s, b); res.count("sources"); what = "%s: %s between '%s' and '%s'" % (pn, k, ts[g - 1] if g else "start", ts[g] if g < len(ts) else "end")
            if g == 3: res.sample({"program": pn, "separator": show(s), "between": ts[g - 1:g + 1]})
            for p in run_(src, pc):
                res.count("paths")
                if not okpath(p): report(res, what, "ends with %s %s" % (p.st, p.msg), src, p.pc.model(), tool="scc", outname="p.com"); break
                m = None
                for x, y, n in zip(outs(p), (bc, bm), ("p.com", "p.map")):
                    m = differs(p.pc, x, y)
                    if m is not None: report(res, what, "%s differs from that of the program with a blank instead" % n, src, m, tool="scc", outname="p.com"); break
                if m is not None: break
                res.count("same_output")
            if len(res.viols) > 3: return res
    return res
def split(pn, n, fill):
    """the operating system delivers the source in pieces cut anywhere"""
    res = Result(); ts = toks(PROGS[pn]); src = flat("/*%s*/\n" % ("x" * fill) if fill else "", fillit(ts)); base = list(run_(src)); res.count("sources")
    bc, bm = outs(base[0])
    for p in run_(src, chunks=n, steps=40000000):
        res.count("paths")
        if not okpath(p): res.add(viol("split " + pn, "ends with %s %s when the reads are cut: %s" % (p.st, p.msg, p.log()), show(src), {"p.c": conc(src, {})})); break
        if any(differs(p.pc, x, y) is not None for x, y in zip(outs(p), (bc, bm))): res.add(viol("split " + pn, "the output depends on where reads are cut: %s" % p.log(), "reads %s" % p.log(), {"p.c": bytes(src)})); break
        res.count("same_output")
    return res
def fillit(ts):
    """the tokens with comments and layout of every kind between them"""
    L = [" ", "\n", "\t", "/*c*/", "//d\n", "\r\n", "/***/", " // '\"\n\n"]; return "".join(t + L[i % len(L)] for i, t in enumerate(ts))
if __name__ == "__main__":
    C = Check("C07", "other", "scc's main executed symbolically (LLVM IR) on programs in which the gap between two tokens is made of symbolic bytes (white space, comments, nothing), and with reads cut at every position; output and map compared with those for a single blank", [
        "one gap at a time, each gap of three programs that together contain every token kind; one read cut at any position", "comments contain two free bytes; no NUL, and no backslash or CR just before the end of a // comment", "the host build; one source per run"])
    mod("scc"); sx.native("scc"); T = C.thorough
    for pn in PROGS:
        n = len(toks(PROGS[pn])) + 1
        for i in range(0, n, 12): C.job("gaps:%s.%d" % (pn, i), case, pn, list(range(i, min(n, i + 12))), KINDS + ["ws3", "block1"])
        C.job("split:" + pn, split, pn, 1, 0); [C.job("split%d:%s" % (k, pn), split, pn, 1, k) for k in ((480, 300, 490, 505, 1000) if T else (480,))]
    C.bounds = {"programs": len(PROGS), "gaps": sum(len(toks(p)) + 1 for p in PROGS.values()), "separator_kinds": len(KINDS)}
    sys.exit(C.run(need=["sources", "paths", "same_output"]))
