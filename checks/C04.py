"""C04: memory accesses in code compiled by scc."""
from ccgen import *
from cclib import *
DEC = """struct N { char t; int v; };
struct M { struct N n; char b[3]; int w[2]; struct N na[2]; unsigned char e; unsigned f; };
union U { int i; char c[2]; unsigned char k; struct N n; unsigned char r[5]; };
struct B { char pad[126]; char x1; int y1; char x2; int big[70]; int z; unsigned char e; };
int g; char c; unsigned h; unsigned char k; int arr[4]; char ca[5]; unsigned ua[3]; unsigned char ka[4]; int a2[3][2]; char c2[2][5];
struct N n0; struct N n1; struct M m0; struct M ma[2]; union U u0; union U uu[2]; struct B b0; struct N nn[2][2];
unsigned char o[24]; int after;
"""
GLOB = {"g": 2, "c": 1, "h": 2, "k": 1, "arr": 8, "ca": 5, "ua": 6, "ka": 4, "a2": 12, "c2": 10, "n0": 3, "n1": 3, "m0": 19, "ma": 38, "u0": 5, "uu": 10, "b0": 273, "nn": 12, "o": 24, "after": 2}
GLOB = {n: (s, 1) for n, s in GLOB.items()}
HLP = "void dump(char* p, int n) { int i; for (i = 0; i < n; i++) o[i] = p[i]; }\nint id(int n) { return n; }\nint* ga(int i) { return arr + (i & 3); }\nstruct M* gm(int i) { return &ma[i & 1]; }\nstruct N* gn(struct N* p, int i) { return p + (i & 1); }\nchar* gc(int i) { return &c2[i & 1][2]; }\nvoid poke(char* p, int v) { *p = v; }\nvoid pokew(int* p, int v) { *p = v; }\nint cnt(void) { static int n; static char t; t += 3; n++; return n + t; }\n"
IDX = ["0", "1", "a & 1", "b & 1", "x & 1", "(a & 1)", "y & 1", "u & 1", "a < b", "!a", "id(a) & 1", "id(1)", "i", "!!x", "(v & 1)", "i ^ 1"]
class Mem:
    def __init__(self, rnd): self.r = rnd
    def ix(self, n=2):
        if n > 2 and self.r.random() < .5: return self.r.choice(["2", "a & 1", "i + 1", "(b & 1) + 1", "1 + i", str(n - 1), "x & %d" % (n - 1) if n & (n - 1) == 0 else "i"])
        return self.r.choice(IDX)
    def st(self, d=2): # lvalue of type struct N
        r = self.r
        return r.choice(["n0", "n1", "ln", "m0.n", "nn[%s][%s]" % (self.ix(), self.ix()), "ma[%s].n" % self.ix(), "m0.na[%s]" % self.ix(), "lm.na[%s]" % self.ix(), "pm->n", "pm->na[%s]" % self.ix(), "*pn", "pn[%s]" % self.ix(), "u0.n", "lna[%s]" % self.ix(), "gm(%s)->na[%s]" % (self.ix(), self.ix()), "ma[%s].na[%s]" % (self.ix(), self.ix()), "*gn(nn[%s], %s)" % (self.ix(), self.ix()), "*ppn[0]", "(*pm).n", "lu.n", "*(pn + (%s))" % self.ix()])
    def m(self): return self.r.choice(["m0.", "lm.", "pm->", "ma[%s]." % self.ix(), "gm(%s)->" % self.ix(), "(*pm).", "(&m0)->", "(pm + 0)->"])
    def w(self): # word lvalue
        r = self.r; k = r.random()
        if k < .22: return r.choice(["(%s).v" % self.st() if False else self.dot(self.st()) + "v"])
        if k < .36: return self.m() + r.choice(["w[%s]" % self.ix(), "f", "n.v", "na[%s].v" % self.ix()])
        return r.choice(["g", "h", "arr[%s]" % self.ix(4), "ua[%s]" % self.ix(3), "a2[%s][%s]" % (self.ix(3), self.ix()), "*p", "p[%s]" % self.ix(), "*ga(%s)" % self.ix(), "ga(%s)[0]" % self.ix(), "u0.i", "uu[%s].i" % self.ix(), "lu.i", "l", "la[%s]" % self.ix(3), "l2[%s][%s]" % (self.ix(), self.ix(3)), "b0.y1", "b0.z", "b0.big[%s]" % self.ix(), "b0.big[60 + (%s)]" % self.ix(), "pb->z", "pb->y1", "pb->big[%s]" % self.ix(),
                         "far_", "*(a2[%s] + (%s))" % (self.ix(), self.ix()), "(*pp)[%s]" % self.ix(), "**pp", "*(p + (%s))" % self.ix(), "st", "sa[%s]" % self.ix(3), "*&g", "*(&g)", "p[-1]", "*(p - (%s))" % self.ix(), "pu[%s]" % self.ix(), "a", "b", "u", "big[100 + (%s)]" % self.ix(), "pw[%s][%s]" % (self.ix(), self.ix()) if False else "after"])
    def dot(self, s): return "(%s)." % s if s.startswith("*") else s + "."
    def ch(self): # char lvalue
        r = self.r; k = r.random()
        if k < .2: return self.dot(self.st()) + "t"
        if k < .34: return self.m() + r.choice(["b[%s]" % self.ix(3), "e", "n.t", "na[%s].t" % self.ix()])
        return r.choice(["c", "k", "ca[%s]" % self.ix(4), "ka[%s]" % self.ix(4), "c2[%s][%s]" % (self.ix(), self.ix(4)), "*q", "q[%s]" % self.ix(), "*gc(%s)" % self.ix(), "gc(%s)[%s]" % (self.ix(), self.ix()), "u0.c[%s]" % self.ix(), "u0.k", "uu[%s].r[%s]" % (self.ix(), self.ix(4)), "lu.c[%s]" % self.ix(), "lc", "lca[%s]" % self.ix(4), "b0.x1", "b0.x2", "b0.e", "pb->x2", "b0.pad[125]", "pb->pad[%s]" % self.ix(), "pk[%s]" % self.ix(), "x", "y", "sc", "*(q + (%s))" % self.ix(), "q[-1]", "((char*)&g)[%s]" % self.ix(),
                         "*((char*)p + (%s))" % self.ix(), "((unsigned char*)arr)[%s]" % self.ix(4), "*(char*)&m0.w[%s]" % self.ix(), "far_c", "*&c"])
    def val(self):
        r = self.r; k = r.random()
        if k < .3: return self.w()
        if k < .5: return self.ch()
        return r.choice(["a", "b", "x", "y", "u", "v", "7", "-3", "200", "0x1234", "a + b", "x - y", "a ^ u", "&arr[%s] - arr" % self.ix(4), "p - arr", "q - ca", "pn - nn[0]", "&nn[%s][1] - nn[0]" % self.ix(), "pm - ma", "sizeof(struct M)", "(char*)pn - (char*)nn", "(char*)(p + 1) - (char*)p", "&ma[1] - pm", "cnt()", "q == ca + (%s)" % self.ix(), "p < arr + (%s)" % self.ix(4), "&b0.z - b0.big", "(%s) + (%s)" % (self.w(), self.ch())])
    def stm(self):
        r = self.r; k = r.random()
        if k < .3: return "%s = %s;" % (self.w(), self.val())
        if k < .5: return "%s = %s;" % (self.ch(), self.val())
        if k < .6: return "%s %s= %s;" % (r.choice([self.w, self.ch])(), r.choice("+-&|^"), self.val())
        if k < .68: t = r.choice([self.w, self.ch])(); t = "(%s)" % t; return r.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % t if r.random() < .5 else "l = " + r.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % t
        if k < .75: s = self.st(); return "%s = %s;" % (s, self.st())
        if k < .79: return r.choice(["m0 = ma[%s];", "ma[%s] = m0;", "lm = ma[%s];", "*pm = lm; %.0s", "lm = *pm; %.0s", "ma[%s] = *gm(1);", "*gm(%s) = m0;", "uu[%s] = u0;", "lu = uu[%s];"]) % self.ix()
        if k < .86: return r.choice(["p++;", "p = &arr[%s];", "p = ga(%s);", "p = a2[%s];", "q = &ca[%s];", "q = c2[%s];", "*q++ = b;", "*p++ = a;", "pn++;", "pn = &nn[%s][0];", "pn = nn[%s];", "pm = &ma[%s];", "p = &m0.w[%s];", "q = m0.b; %.0s", "p = la; %.0s", "q = lca; %.0s", "pn = m0.na; %.0s", "pn = lna; %.0s", "pm = &m0; %.0s", "pm = &lm; %.0s", "q = (char*)&h; %.0s", "p += %s;", "q += %s;", "l = *p++; %.0s", "lc = *q++; %.0s", "l = *++p; %.0s", "pn = pn + (%s);", "pu = &ua[%s];", "pk = ka + (%s);", "pk = &m0.e; %.0s", "pp = &p; %.0s", "p = (int*)&m0.f; %.0s", "p = &l2[%s][0];", "p = &big[99]; %.0s"]).replace("%.0s", "") % (() if False else ()) if False else self.ptr()
        if k < .9: return r.choice(["poke(&%s, %s);" % (self.ch2(), self.val()), "pokew(&%s, %s);" % (r.choice(["g", "arr[%s]" % self.ix(4), "m0.w[%s]" % self.ix(), "l", "la[%s]" % self.ix(), "ma[%s].na[%s].v" % (self.ix(), self.ix()), "b", "after"]), self.val())])
        if k < .94: return "for (j = 0; j < %d; j++) %s" % r.choice([(2, "arr[j] = %s;" % r.choice(["a + j", "ca[j]", "j"])), (3, "ca[j] = ka[j];"), (2, "m0.w[j] = arr[j + 1];"), (2, "nn[j][1].v = a2[j][0];"), (3, "lca[j] = c2[1][j];"), (2, "*p++ = j;")])
        if k < .97: return "{ int z1 = %s; char z2[5]; struct N z3; z3.v = z1; z2[%s] = %s; z3.t = %s; %s = z3.v + z2[%s]; }" % (self.val(), "1", self.val(), self.val(), self.w(), "1")
        t = r.choice([self.w, self.ch])()
        while t in ("a", "b", "u", "x", "y"): t = self.w() # these may be read in the other operand's index
        return "%s = %s = %s;" % (self.w(), t, self.val())
    def ch2(self): return self.r.choice(["c", "ca[%s]" % self.ix(4), "m0.b[%s]" % self.ix(3), "m0.n.t", "ma[%s].na[%s].t" % (self.ix(), self.ix()), "lc", "lca[%s]" % self.ix(4), "u0.c[%s]" % self.ix(), "b0.x2", "x"])
    def ptr(self):
        r = self.r; t = r.choice(["p++;", "p = &arr[%s];", "p = ga(%s);", "p = a2[%s];", "q = &ca[%s];", "q = c2[%s];", "*q++ = b;", "*p++ = a;", "pn++;", "pn = &nn[%s][0];", "pn = nn[%s];", "pm = &ma[%s];", "p = &m0.w[%s];", "q = m0.b;", "p = la;", "q = lca;", "pn = m0.na;", "pn = lna;", "pm = &m0;", "pm = &lm;", "q = (char*)&h;", "p += %s;", "q += %s;", "l = *p++;", "lc = *q++;", "l = *++p;", "pn = pn + (%s);", "pu = &ua[%s];", "pk = ka + (%s);", "pk = &m0.e;", "pp = &p;", "p = (int*)&m0.f;", "p = &l2[%s][0];", "p = &big[99];", "l = (*p)++;", "lc = --*q;", "*++q = a;", "*--p = b;", "l = pn++->v;", "(*pn).v = a;", "pn->t = b; pn++;", "(pn++)->v = a;", "pm++;", "(pm++)->e = a;"])
        return t % self.ix() if "%s" in t else t
    # differences and comparisons of pointers into different objects are unspecified in C
    CROSS = [(r"\bp - arr|\bp < arr", r"\bp = (?!&arr|ga)"), (r"\bq - ca|\bq == ca", r"\bq = (?!&ca)"), (r"\bpn - nn|\bpn - \(char", r"\bpn = (?!&nn|nn|pn)"), (r"\bpm - ma|&ma\[1\] - pm", r"\bpm = (?!&ma)"),
        # accesses just outside local arrays, which the reference's optimiser deletes rather than faults on
        (r"\bq\[-1\]|--q", r"\bq = lca"), (r"\bp\[-1\]|--p|\bp - \(", r"\bp = (la|&l2)"), (r"(\bq(\+\+| \+=).*|\+\+q.*){2}", r"\bq = lca"), (r"(\bp(\+\+| \+=).*|\+\+p.*){2}", r"\bp = la")]
    LOC = [("int l;", "l = a;"), ("char lc;", "lc = b;"), ("int la[3];", "la[0] = a; la[1] = b; la[2] = 5;"), ("char lca[4];", "lca[0] = x; lca[1] = y; lca[2] = 3; lca[3] = 9;"), ("struct N ln;", "ln = n0;"), ("struct N lna[2];", "lna[0] = n0; lna[1] = n1;"), ("struct M lm;", "lm = ma[1];"), ("union U lu;", "lu = u0;"), ("int l2[2][3];", "for (j = 0; j < 6; j++) l2[0][j] = j;"), ("int far_;", "far_ = u;"), ("char far_c;", "far_c = v;"), ("int big[104];", "big[98] = 1; big[99] = b; big[100] = a; big[101] = x; big[102] = 4;"), ("static int st;", "st = b;"), ("static int sa[3];", "sa[0] = 1; sa[1] = a; sa[2] = y;"), ("static char sc;", "sc = a;")]
    DUMP = {"la": 6, "lca": 4, "ln": 3, "lna": 6, "lm": 19, "lu": 5, "l2": 12, "sa": 6}
    PTR = "p = arr + 1; q = ca + 1; pn = nn[1]; pm = ma; pb = &b0; pp = &p; pu = ua; pk = ka; ppn[0] = &n1; i = b & 1;"
    def fn(self, n):
        r = self.r; lo = self.LOC[:]; r.shuffle(lo)
        lo = [x for x in lo if "big" not in x[0]] if r.random() < .75 else lo
        st = " ".join(self.stm() for _ in range(n))
        while any(re.search(d, st) and re.search(s, st) for d, s in self.CROSS): st = " ".join(self.stm() for _ in range(n))
        if "big[" not in st: lo = [x for x in lo if "big" not in x[0]]
        elif not any("big" in x[0] for x in lo): lo.insert(r.randrange(len(lo)), self.LOC[11])
        for x in self.LOC: # locals that are not mentioned are left out, sometimes
            nm = re.search(r"(\w+)(\[.*)?;", x[0]).group(1)
            if x in lo and not re.search(r"\b%s\b" % nm, st) and nm not in self.DUMP and r.random() < .6: lo.remove(x)
        dump = r.choice(list(self.DUMP) + ["", ""])
        if dump and not any(re.search(r"\b%s\b" % dump, x[0]) for x in lo): dump = ""
        for d in list(self.DUMP):
            if d != dump and not re.search(r"\b%s\b" % d, st): lo = [x for x in lo if not re.search(r"\b%s\b" % d, x[0])]
        text = "int i; int j; int* p; char* q; struct N* pn; struct M* pm; struct B* pb; int** pp; unsigned* pu; unsigned char* pk; struct N* ppn[2]; " + " ".join(x[0] for x in lo) + " j = 0; " + self.PTR + " " + " ".join(x[1] for x in lo) + " " + st
        if dump: text += " dump((char*)%s, %d);" % (("&" + dump) if dump in ("ln", "lm", "lu") else dump, min(self.DUMP[dump], 20))
        ret = [x for x in ("l", "lc", "far_", "far_c", "st", "sc") if any(re.search(r"\b%s\b" % x, y[0]) for y in lo)]
        return body(text + " return a - b" + "".join(" + %s" % x for x in ret) + ";", tag=st)
def pointers():
    fs = []
    for pre in ["int* p = arr;", "char* p = ca;", "struct N* p = nn[0];", "unsigned char* p = ka;", "struct M* p = ma;", "union U* p = uu;"]:
        base = pre.split("=")[1].strip(" ;"); word = "struct" not in pre and "union" not in pre
        for e in ["1 + p", "(a & 1) + p", "(x & 1) + p", "p + (a & 1)", "id(1) + p", "p + id(1)", "(a < b) + p", "p + (a < b)", "p += 1", "p += (a & 1)", "p += (a < b)", "p++", "++p", "p = p + 1", "1 + p++", "p-- + 1", "&p[a & 1]", "&p[1] - (a & 1)", "p + 1 - (b & 1)"]:
            fs += [body(pre + " return (char*)(%s) - (char*)%s;" % (e, base)), body(pre + " %s; return (char*)p - (char*)%s;" % (e, base))]
            mem = {"N": "v", "M": "f", "U": "i"}.get(pre.split("*")[0].split()[-1])
            fs += [body(pre + (" return *(%s);" % e if word else " return (%s)->%s;" % (e, mem))), body(pre + (" (%s)[0] = a; return 1;" % e if word else " (%s)->%s = a; return 0;" % (e, mem))), body(pre + (" *(%s) = b; return *p;" % e if word else " return &(%s)->%s == &p->%s;" % (e, mem, mem)))]
    return fs
if __name__ == "__main__":
    C = Check("C04", "translation_validation", "scc's output executed symbolically on an 8086 model vs. the same C text compiled by clang for a 16-bit target with packed structures and executed symbolically; every object's bytes and everything outside the program's objects and stack are compared (SMT, QF_BV)", [
        "contents of all global objects, arguments and index operands: all values (indexes masked to the arrays' bounds)", "program texts: pointer arithmetic forms enumerated, access sequences random (seeded)", "structures are packed in scc; the reference is compiled with packed structures", "accesses outside an object (undefined in C) are excluded on the reference's verdict"])
    rnd = random.Random(C.seed); N = 9000 if C.thorough else 2200
    tr = [Mem(rnd).fn(rnd.choice([1, 2, 3, 5])) for _ in range(N)]; pt = pointers()
    C.bounds = {"random_access_sequences": len(tr), "pointer_forms": len(pt), "statements_per_sequence": 5}
    sx.native("scc")
    for nm, fs, n in (("ptr", pt, 60), ("mem", tr, 25)):
        for i, c in enumerate(chunks(fs, n)): C.job("%s%d" % (nm, i), run_batch, Batch("%s%d" % (nm, i), DEC, c, GLOB, HLP))
    sys.exit(C.run(need=["path_pairs", "programs"], limits={"undecided": ("programs", 0.02)}))
