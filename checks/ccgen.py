"""Generators of C functions (in scc's subset) for the compiler checks."""
from cclib import Fn, Batch, chunks
import random, re
PARAMS = "int a, int b, unsigned u, unsigned v, char x, unsigned char y"
ARGS = ["int", "int", "unsigned", "unsigned", "char", "unsigned char"]
DECLS = """int g; int g2; unsigned h; unsigned h2; char c; char c2; unsigned char k; unsigned char k2;
int arr[4]; char ca[4]; unsigned ua[4]; unsigned char ka[4];
struct S { char x; int y; unsigned z; unsigned char w; };
struct S s; struct S s2; struct S sa[2];
"""
GLOBALS = {"g": (2, 1), "g2": (2, 1), "h": (2, 1), "h2": (2, 1), "c": (1, 1), "c2": (1, 1), "k": (1, 1), "k2": (1, 1), "arr": (8, 1), "ca": (4, 1), "ua": (8, 1), "ka": (4, 1), "s": (6, 1), "s2": (6, 1), "sa": (12, 1)}
HELP = "int id(int n) { return n; }\nunsigned uid(unsigned n) { return n; }\nint inc(int n) { g2 = g2 + 1; return n + 1; }\n"
# operands: (text, declarations needed before)
def lops(): # left operands: a u x g h c k ...
    return [("a", ""), ("u", ""), ("x", ""), ("y", ""), ("g", ""), ("h", ""), ("c", ""), ("k", ""), ("l", "int l = a;"), ("ul", "unsigned ul = u;"), ("cl", "char cl = a;"), ("kl", "unsigned char kl = a;"),
            ("*p", "int* p = &g;"), ("*pu", "unsigned* pu = &h;"), ("*pc", "char* pc = &c;"), ("*pk", "unsigned char* pk = &k;"), ("arr[1]", ""), ("ca[2]", ""), ("arr[a & 3]", ""), ("ua[3]", ""), ("ka[a & 3]", ""), ("s.y", ""), ("s.x", ""), ("s.z", ""), ("s.w", ""), ("q->y", "struct S* q = &s;"), ("q->x", "struct S* q = &s;"), ("q->w", "struct S* q = &s;"), ("sa[1].y", ""), ("la[1]", "int la[2]; la[1] = a;"), ("ls.y", "struct S ls; ls.y = a;"),
            ("(a + g)", ""), ("(u - h)", ""), ("(x + c)", ""), ("id(a)", ""), ("uid(u)", ""), ("(a < g)", ""), ("!a", ""), ("-a", ""), ("~u", ""), ("-x", ""), ("(char)a", ""), ("(unsigned char)a", ""), ("(unsigned)a", ""), ("(int)u", ""), ("(a ? g : c)", ""), ("(a ? u : h)", ""), ("a++", ""), ("--g", ""), ("c++", ""), ("--c", ""), ("k--", ""), ("(g = a)", ""), ("(c = a)", ""), ("(k = a)", ""), ("(a && g)", ""), ("(a || g)", ""), ("(g += a)", ""), ("(c += a)", ""), ("(a, g)", ""), ("+a", ""), ("!!a", ""), ("(a == u)", ""), ("~a", "")]
def rops():
    return [("b", ""), ("v", ""), ("y", ""), ("x", ""), ("g2", ""), ("h2", ""), ("c2", ""), ("k2", ""), ("m", "int m = b;"), ("um", "unsigned um = v;"), ("cm", "char cm = b;"), ("km", "unsigned char km = b;"),
            ("*r", "int* r = &g2;"), ("*ru", "unsigned* ru = &h2;"), ("*rc", "char* rc = &c2;"), ("*rk", "unsigned char* rk = &k2;"), ("arr[2]", ""), ("ca[3]", ""), ("arr[b & 3]", ""), ("ua[b & 3]", ""), ("ka[1]", ""), ("s2.y", ""), ("s2.x", ""), ("s2.z", ""), ("t->y", "struct S* t = &s2;"), ("t->w", "struct S* t = &s2;"),
            ("(b + g2)", ""), ("(v - h2)", ""), ("id(b)", ""), ("uid(v)", ""), ("(b < g2)", ""), ("!b", ""), ("-b", ""), ("~v", ""), ("(char)b", ""), ("(unsigned char)b", ""), ("(unsigned)b", ""), ("(b ? g2 : c2)", ""), ("b++", ""), ("++g2", ""), ("c2--", ""), ("(g2 = b)", ""), ("(c2 = b)", ""), ("(b || g2)", ""), ("(g2 *= b)", ""), ("(b, v)", "")]
CONSTS = ["0", "1", "2", "3", "4", "5", "7", "8", "10", "15", "16", "17", "100", "127", "128", "129", "255", "256", "257", "1000", "4096", "32767", "-1", "-2", "-3", "-4", "-7", "-8", "-127", "-128", "-129", "-256", "-32767", "'a'", "0x10", "(-32767-1)", "(char)200", "(unsigned char)200", "sizeof(int)"]
UCONSTS = ["0x8000", "0xFFFF", "0x8001", "65535", "40000"]  # unsigned int in C: of interest for signedness
SHIFTS = ["0", "1", "2", "3", "7", "8", "9", "14", "15"]
ARITH = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
REL = ["<", "<=", ">", ">=", "==", "!="]
_n = [0]
def fn(expr, setup="", tag=None, ret="int"):
    _n[0] += 1; n = "f%d" % _n[0]
    return Fn(n, "%s %s(%s) { %s return %s; }" % (ret, n, PARAMS, setup, expr), ret=ret, args=ARGS, tag=tag or expr)
def body(text, tag=None, ret="int", params=PARAMS, args=None, note=None):
    _n[0] += 1; n = "f%d" % _n[0]
    return Fn(n, "%s %s(%s) { %s }" % (ret, n, params, text), ret=ret, args=ARGS if args is None else args, tag=tag or text, note=note)
def batches(name, fns, size=60, helpers=HELP):
    return [Batch("%s%d" % (name, i), DECLS, c, GLOBALS, helpers) for i, c in enumerate(chunks(fns, size))]
# ---- assignable targets: (text, declarations, kind)
def targets(): return [("g", "", "int"), ("h", "", "unsigned"), ("c", "", "char"), ("k", "", "uchar"), ("l", "int l = b;", "int"), ("ul", "unsigned ul = v;", "unsigned"), ("cl", "char cl = b;", "char"), ("kl", "unsigned char kl = b;", "uchar"), ("a", "", "int"), ("u", "", "unsigned"), ("x", "", "char"), ("y", "", "uchar"),
            ("*p", "int* p = &g;", "int"), ("*pu", "unsigned* pu = &h;", "unsigned"), ("*pc", "char* pc = &c;", "char"), ("*pk", "unsigned char* pk = &k;", "uchar"), ("arr[1]", "", "int"), ("arr[b & 3]", "", "int"), ("ca[b & 3]", "", "char"), ("ka[2]", "", "uchar"), ("ua[b & 3]", "", "unsigned"),
            ("s.y", "", "int"), ("s.x", "", "char"), ("s.w", "", "uchar"), ("q->y", "struct S* q = &s;", "int"), ("q->z", "struct S* q = &s;", "unsigned"), ("q->x", "struct S* q = &s;", "char"), ("q->w", "struct S* q = &s;", "uchar"), ("sa[b & 1].y", "", "int"), ("sa[1].w", "", "uchar"), ("la[1]", "int la[2]; la[1] = b;", "int"), ("lc[1]", "char lc[3]; lc[1] = b;", "char"), ("ls.z", "struct S ls; ls.z = b;", "unsigned"), ("ls.x", "struct S ls; ls.x = b;", "char"), ("p[1]", "int* p = arr;", "int"), ("pc[b & 3]", "char* pc = ca;", "char"), ("*(arr + 2)", "", "int"), ("*pp[0]", "int* pp[1]; pp[0] = &g2;", "int")]
def decls(*ss):
    """the declarations needed by several operands, each once"""
    return " ".join(dict.fromkeys(x.strip() for s in ss for x in re.findall(r"[^;]+;", s)))
class Rnd:
    """random expressions over a function's parameters, globals and locals; pure=True leaves out operands with side effects"""
    def __init__(self, rnd, pure=True):
        self.r = rnd; self.d = []
        SE = ("++", "--", "=", "id(", "uid(")
        self.leaf = [(t, s) for t, s in lops() + rops() if not pure or not any(x in t.replace("==", "").replace("<=", "") for x in SE)]
    def const(self): return self.r.choice(CONSTS[:-1])
    def e(self, depth, rel=True):
        r = self.r
        if depth == 0:
            if r.random() < .25: return self.const()
            t, s = r.choice(self.leaf); self.d.append(s); return t
        k = r.random()
        if k < .62:
            op = r.choice(ARITH[:8] * 2 + ["<<", ">>"] + (REL if rel else []))
            l = self.e(depth - 1, rel); rr = r.choice(SHIFTS) if op in ("<<", ">>") and r.random() < .7 else self.e(r.randrange(depth), rel)
            if op in "/%" and rr.strip("()-").isdigit() and int(rr.strip("()-")) == 0: rr = "3"
            if lit(l) and lit(rr): l = self.nonconst()
            return "(%s %s %s)" % (l, op, rr)
        if k < .74:
            x = self.e(depth - 1, rel); x = self.nonconst() if lit(x) else x
            return "(%s%s)" % (r.choice(["-", "~", "!", "+", "(char)", "(unsigned)", "(int)", "(unsigned char)"]), "(" + x + ")")
        if k < .84 and rel: return "(%s %s %s)" % (self.nc(depth - 1), r.choice(["&&", "||"]), self.nc(depth - 1))
        if k < .92 and rel: return "(%s ? %s : %s)" % (self.nc(depth - 1), self.nc(depth - 1), self.nc(depth - 1))
        return self.e(depth - 1, rel)
    def nonconst(self):
        t, s = self.r.choice(self.leaf); self.d.append(s); return t
    def nc(self, depth):
        x = self.e(depth); return self.nonconst() if lit(x) else x
def lit(t):
    """is the expression made of literals only (its folding is not the point here)"""
    return not re.search(r"[a-z]", re.sub(r"'.'|0x[0-9a-fA-F]+|sizeof|\((unsigned )?(char|int|unsigned)\)", "", t))
