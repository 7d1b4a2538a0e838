"""C02: comparisons, logical operators and conditional expressions in code compiled by scc."""
from ccgen import *
from cclib import *
SHAPES = ['if (%s) return 1; return 2;', 'return !(%s);', 'return (%s) ? g : h2;', 'return (%s) ? b + g2 : v - h2;', 'while (%s) return 3; return 4;', 'return (%s) && (%s);', 'return (%s) || (%s);',
 'if ((%s) && !(%s)) return 5; return 6;', 'if ((%s) || (%s)) return 5; return 6;', 'if ((%s) ? (%s) : (%s)) return 7; return 8;', 'return !((%s) ? (%s) : (%s));', 'return (%s) && (%s) || (%s);',
 'return ((%s) || (%s)) && (%s);', 'int r_ = (%s); return r_;', 'return (%s) ? (%s) : (%s);', 'return (%s) == (%s);', 'return id(%s);', 'for (;%s;) return 1; return 2;',
 'do { if (g == 5) return 7; return 3; } while (%s); return 4;', 'g2 = (%s); return g2;', 'c2 = (%s) + 1; return c2;', 'return -(%s);', 'return ~(%s);']
CONDS = ['a && 1', '1 && a', 'a || 0', '0 || a', '1 || a', '0 && a', '!5', '!0 && a', '(a && 1) + 2', '1 && 1', '0 || 0', 'a && !0', '(1 ? a : b)', '(0 ? a : b)', '(a ? 1 : 0)', '(a ? 0 : 1) + g', '1 ? 2 : 3',
 '(1 && a) ? 3 : 4', 'a < 5 && 1', 'a && b && 0', '0 || a < 3', '(0 ? a : b) + 3', 'g + (1 ? a : 2)', 'a + (b && 2)', '!(a && 0)', '(1 ? p : 0) == &g', '(a ? p : 0) == 0', 'p && 1', '!p', 'p ? 1 : 2',
 '(a ? &g : &g2) == p', 'a && p', '*p && p', '(a ? c : k)', '(a ? k : h)', '(a ? c : 300)', "(a ? 'a' : u) / 3", '&g == p && a', '(a ? arr : ua) == arr', '*(a ? arr : arr + 1)', '(a ? s : s2).y', '(a ? &s : &s2)->y',
 '(a ? sa : &s)->z', 'a ? b ? 1 : 2 : 3', 'a ? 1 : b ? 2 : 3', '(a, b) ? 1 : 2', 'a ? (g = 3, 1) : 2', 'a = b ? 3 : 4', 'g = a ? b : x', 'a < b < x', 'a == b == x', '!a == b', '!(a == b)', '!a < b', '-a < b',
 'a & b == x', 'a < b & x', '(a < b) + (x < y) * 2', '(a < b) == (x < y)', '(a < b) && (x < y) == (u < v)', '((a < b) || (x == y)) != (u >= v)', 'a++ && b++ && x++', 'a-- || b-- || g++', 'a & 1 && b & 2', 'p < &arr[2]',
 'p >= q', 'p - q', '(p == q) + 1', 'q - p > 3', 'p != 0 && *p > 2', '*p++ + *q--']
FORMS = ['return %s;', 'if (%s) return 1; return 2;', 'while (%s) return 1; return 2;', 'int r_ = %s; return r_;', 'return !(%s);', 'return b + (%s);', 'return (%s) - b;', 'return (a + b) - ((%s) - (x - y));',
 'return id(a) + id(%s);', 'do { if (g2 == 7) return 7; g2 = 7; } while (%s); return 9;', 'for (;%s;) return 1; return 2;', 'switch (%s) { case 0: return 5; case 1: return 6; } return 7;', 'arr[(%s) & 3] = 9; return 0;',
 'return (%s) ? a : b;', 'return arr[(%s) & 3];', 'c2 = %s; return c2;']
def conditions():
    cs = []
    for l, sl in lops():
        cs.append((l, sl))
        for op in ARITH + REL * 2:
            for r, sr in rops(): cs.append(("%s %s %s" % (l, op, r), sl + " " + sr))
            for k in CONSTS[:-3]:
                if (op in ("<<", ">>") and k not in SHIFTS) or (op in "/%" and k == "0"): continue
                cs.append(("%s %s %s" % (l, op, k), sl))
    return cs
def relations():
    """every relation between every two operands, as a value"""
    fs = []
    for l, sl in lops():
        for op in REL:
            for r, sr in rops(): fs.append(fn("%s %s %s" % (l, op, r), sl + " " + sr))
            for k in CONSTS[:-3]: fs.append(fn("%s %s %s" % (l, op, k), sl)); fs.append(fn("%s %s %s" % (k, op, l), sl))
    return fs
ATOMS = ["a", "b", "x", "u", "c", "g", "inc(a)", "inc(b)", "inc(0)", "g++", "--g", "(c = b)", "(g += a)", "a < b", "u < v", "x == y", "a == 3", "u > 7", "!a", "id(b)", "inc(x) < y", "(k -= 3)", "x++", "a--", "0", "1", "arr[a & 3]", "s.y", "*pg", "(h = u) > v", "(a, g)"]
def logic(r, d):
    if d == 0 or r.random() < .15: return r.choice(ATOMS)
    k = r.random(); s = lambda: logic(r, d - 1)
    if k < .36: return "(%s && %s)" % (s(), s())
    if k < .72: return "(%s || %s)" % (s(), s())
    if k < .88: return "(%s ? %s : %s)" % (s(), s(), s())
    return "(!%s)" % s() if k < .96 else "!(%s)" % s()
def logics(n, rnd, ds):
    F = ["return %s;", "if (%s) return 1; return 2;", "while (%s) { if (g2 > 9) return 3; g2 += 4; return 4; } return 5;", "int r_ = %s; return r_;", "return !(%s);", "return b + (%s);", "return arr[%s ? 1 : 2];", "do { if (h2 == 7) return 7; h2 = 7; } while (%s); return 9;", "return id(%s);"]
    return [body("int* pg = &g; " + rnd.choice(F) % logic(rnd, rnd.choice(ds))) for _ in range(n)]
def rendered(n, rnd):
    cs = conditions(); fs = []
    for i in range(n):
        s = rnd.choice(SHAPES); q = [rnd.choice(cs) for _ in range(s.count("%s"))]
        fs.append(body(decls(*[c[1] for c in q]) + " " + s % tuple(c[0] for c in q)))
    return fs
if __name__ == "__main__":
    C = Check("C02", "translation_validation", "scc's output executed symbolically on an 8086 model vs. the same C text compiled by clang for a 16-bit target and executed symbolically; SMT (QF_BV) decides equality of value and side effects per path", [
        "operands: all values of every parameter, global, array element and structure member used", "program texts are the enumerated condition x statement families plus seeded random logical trees; inputs for which C leaves the result undefined are excluded",
        "clang 18's C semantics for int=16 bit, char=signed 8 bit is the oracle"])
    rnd = random.Random(C.seed); rel = relations(); fixed = [body("int* p = &arr[a & 3]; int* q = &arr[b & 3]; " + (f % ((t,) * f.count("%s")))) for t in CONDS for f in FORMS]
    rnd.shuffle(rel)
    if C.thorough: ren = rendered(24000, rnd); lg = logics(6000, rnd, [2, 3]) + logics(1500, rnd, [4])
    else: ren = rendered(7000, rnd); lg = logics(1500, rnd, [2, 3]); rel = rel[:9000]
    C.bounds = {"relations": len(rel), "condition_x_statement": len(ren), "fixed_condition_x_form": len(fixed), "random_logic_trees": len(lg)}
    sx.native("scc")
    for nm, fs, sz in (("fixed", fixed, 16), ("logic", lg, 40), ("statement", ren, 80), ("relation", rel, 120)):
        for b in batches(nm, fs, sz): C.job(b.name, run_batch, b)
    sys.exit(C.run(need=["path_pairs", "programs"], limits={"undecided": ("programs", 0.02)}))
