"""Simplifier validation: random expressions against a direct evaluator, and z3's view of the simplified form."""
import sys, os, random; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import sx
random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
names = [("a", 8), ("b", 8), ("c", 16), ("d", 16), ("e", 1), ("f", 4)]
vs = [sx.var(n, w) for n, w in names]
def s(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def fold(op, w, a, b):
    M = (1 << w) - 1
    if op == "AND": return a & b
    if op == "OR": return a | b
    if op == "XOR": return a ^ b
    if op == "ADD": return (a + b) & M
    if op == "SUB": return (a - b) & M
    if op == "MUL": return (a * b) & M
    if op == "UDIV": return a // b if b else M
    if op == "UREM": return a % b if b else a
    if op in ("SDIV", "SREM"):
        x, y = s(a, w), s(b, w)
        if y == 0: return (1 if x < 0 else M) if op == "SDIV" else a
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return q & M if op == "SDIV" else (x - q * y) & M
    if op == "SHL": return (a << b) & M if b < w else 0
    if op == "LSHR": return a >> b if b < w else 0
    if op == "ASHR": return (s(a, w) >> min(b, w - 1)) & M
    if op == "EQ": return int(a == b)
    if op == "ULT": return int(a < b)
    if op == "ULE": return int(a <= b)
    if op == "SLT": return int(s(a, w) < s(b, w))
    if op == "SLE": return int(s(a, w) <= s(b, w))
K = 24
def rnd(): return [random.choice([0, 1, (1 << w) - 1, 1 << (w - 1), random.getrandbits(w), random.getrandbits(w)]) for n, w in names]
models = [rnd() for _ in range(K)]
arrs = []
for m in models:
    a = (sx.U64 * len(m))(*m); arrs.append(a)
pool = [(v, [m[i] for m in models]) for i, v in enumerate(vs)]
bad = 0; N = 60000
for it in range(N):
    if it % 400 == 0: pool = pool[:6] + [(sx.const(c, w), [c] * K) for w in (1, 4, 8, 16) for c in {0, 1, (1 << w) - 1, (1 << w) // 2, random.getrandbits(w)}]
    k = random.random(); a, av = random.choice(pool); w = a.w
    try_same = [p for p in pool if p[0].w == w]; b, bv = random.choice(try_same)
    if k < .62:
        op = random.choice(["AND", "OR", "XOR", "ADD", "SUB", "MUL", "UDIV", "UREM", "SDIV", "SREM", "SHL", "LSHR", "ASHR", "EQ", "ULT", "ULE", "SLT", "SLE"])
        if w > 32 and op in ("MUL",): continue
        r = a._b(op, b, 1 if op in ("EQ", "ULT", "ULE", "SLT", "SLE") else w); rv = [fold(op, w, x, y) for x, y in zip(av, bv)]; d = op
    elif k < .72:
        off = random.randrange(w); n = random.randint(1, w - off); r = a.ex(off, n); rv = [x >> off & ((1 << n) - 1) for x in av]; d = "ex"
    elif k < .8:
        b, bv = random.choice(pool)
        if w + b.w > 64: continue
        r = a.cat(b); rv = [x << b.w | y for x, y in zip(av, bv)]; d = "cat"
    elif k < .9:
        n = random.choice([x for x in (4, 8, 9, 16, 17, 32, 64) if x >= w])
        if random.random() < .5: r = a.zx(n); rv = av; d = "zx"
        else: r = a.sx(n); rv = [s(x, w) & ((1 << n) - 1) for x in av]; d = "sx"
    else:
        c, cv = random.choice([p for p in pool if p[0].w == 1]); r = c.ite(a, b); rv = [x if t else y for t, x, y in zip(cv, av, bv)]; d = "ite"
    for j in range(K):
        g = r.eval(arrs[j])
        if g != rv[j]: bad += 1; print("MISMATCH", d, w, "got %x want %x" % (g, rv[j]), r, "from", a, b); break
    if it % 97 == 0: # z3 agrees with the evaluator: (r == value) under the model must be satisfiable, and (r != value) not
        pc = sx.PC()
        ok = all(pc.assume(v.eq(models[0][i])) for i, v in enumerate(vs))
        if not pc.must(r.eq(rv[0])): bad += 1; print("Z3 MISMATCH", d, r)
    pool.append((r, rv))
    if bad > 10: break
print("expressions", it + 1, "bad", bad, sx.stats()["queries"]); sys.exit(1 if bad else 0)
