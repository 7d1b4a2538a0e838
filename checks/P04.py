"""P04: text passes through. Windows of free bytes in text, literals, comments and at splices; the output of every path is compared
with a reference of C's translation phases 2 to 4 (without directives) evaluated on the same symbolic bytes."""
from pplib import *
class Any(Exception): "outside the claim"
ID = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"); OPC = set(b"+-*/%&|^<>=!#")
PUN = OPC | set(b"()?:,;{}[].~\\"); WS = set(b" \t\v\f\r"); CTL = set(range(1, 32)) - WS - {10}
class Src:
    def __init__(self, f, bs): self.f = f; self.b = bs; self.i = 0
    def isin(self, b, s):
        if isinstance(b, int): return b in s
        return self.f.dec(inset(b, sorted(s)))
    def at(self, k): return self.b[self.i + k] if self.i + k < len(self.b) else None
    def here(self, s, k=0): b = self.at(k); return b is not None and self.isin(b, s)
    def splice(self):
        """a line splice at the current position"""
        if not self.here({92}): return 0
        if self.here({10}, 1): return 2
        if self.here({13}, 1):
            if self.here({10}, 2): return 3
            raise Any
        return 0
def reference(f, bs, macro):
    """units: (byte, kind) with kind c or l, or None for white space"""
    s = Src(f, bs); out = []; bol = True; ident = None
    while s.at(0) is not None:
        b = s.at(0)
        if s.here({10}): bol = True; out.append(None); s.i += 1; continue
        n = s.splice()
        if n:
            s.i += n
            continue
        if s.here(WS | CTL):
            if s.here(CTL): raise Any
            out.append(None); s.i += 1; continue
        if s.here({47}):
            if s.here({92}, 1): raise Any # a comment opened across a splice
            if s.here({47}, 1):
                s.i += 2
                while s.at(0) is not None:
                    n = s.splice()
                    if n: s.i += n; continue
                    if s.here({10}): break
                    s.i += 1
                else: raise Any # ended by the end of the file
                out.append(None); continue
            if s.here({42}, 1):
                s.i += 2
                while True:
                    if s.at(0) is None: raise Any
                    if s.here({42}) and s.here({92}, 1): raise Any
                    if s.here({42}) and s.here({47}, 1): break
                    s.i += 1
                s.i += 2; out.append(None); continue
        if s.here({35}) and bol: raise Any
        bol = False
        if s.here({34, 39}):
            q = 34 if s.here({34}) else 39; out.append((b, "q")); s.i += 1; n = 0
            while True:
                if s.at(0) is None or s.here({10}): raise Any
                k = s.splice()
                if k: s.i += k; continue
                if s.here({q}): break
                if s.here({92}):
                    if s.at(1) is None: raise Any
                    if s.here({92}, 1) and s.here({10, 13}, 2): raise Any # an escape split by a splice
                    out.append((s.at(0), "l")); out.append((s.at(1), "l")); s.i += 2; continue
                out.append((s.at(0), "l")); s.i += 1
            out.append((s.at(0), "q")); s.i += 1; continue
        if s.here(ID):
            start = len(out); spliced = False
            while s.at(0) is not None:
                n = s.splice()
                if n: s.i += n; spliced = True; continue
                if not s.here(ID): break
                out.append((s.at(0), "c")); s.i += 1
            if spliced and macro: raise Any # an identifier cut by a splice
            for name, body in macro.items():
                if len(out) - start == len(name) and all((o[0] == c) if isinstance(o[0], int) else f.dec(o[0].eq(c)) for o, c in zip(out[start:], name)):
                    out[start:] = [None] + [None if c == 32 else (c, "c") for c in body] + [None]; break
            continue
        if not s.here(PUN): raise Any
        out.append((b, "c")); s.i += 1
    return out
def fits(f, exp, out):
    """None if the output has the expected tokens, a reason otherwise"""
    j = 0; sep = True; prev = None; ne = []
    ws = lambda b: isinstance(b, int) and b in (32, 9, 10, 13)
    cls = lambda b, k: k in "ql" and "q" or (("i" if b in ID or b == 46 else "o" if b in OPC else "") if isinstance(b, int) else ("i" if f.dec(inset(b, sorted(ID | {46}))) else "o" if f.dec(inset(b, sorted(OPC))) else ""))
    for u in exp + ["end"]:
        if u is None: sep = True; continue
        n = 0
        if u == "end" or u[1] != "l" and not (u[1] == "q" and prev and prev[1] in "l"):
            opened = u != "end" and u[1] == "q" and prev is not None and prev[1] == "q" and not sep # an empty literal's closing quote
            while not opened and j < len(out) and ws(out[j]): j += 1; n += 1
        if u == "end": break
        if prev is not None and (sep and not n or n and not sep):
            a, b = cls(*prev), cls(*u)
            if a == b and a in ("i", "o"): return "tokens are joined" if sep else "a token is split"
        if j >= len(out): return "output ends before the text does"
        o = out[j]; j += 1
        if isinstance(o, int) and isinstance(u[0], int):
            if o != u[0]: return "output has %r instead of %r" % (chr(o), chr(u[0]))
        elif isinstance(o, E) and isinstance(u[0], E) and o.same(u[0]): pass
        else: ne.append(sx.bits(o, 8).ne(sx.bits(u[0], 8)))
        prev = u; sep = False
    if j < len(out): return "output has more than the text"
    if ne and f.pc.check(disj(ne)) is not None: f.pc.assume(disj(ne)); return "a byte differs"
    return None
def case(name, parts, sets, macro=None, **kw):
    """parts: text with one private-use character per free byte; sets[i]: the allowed values"""
    res = Result(); macro = {n.encode(): b.encode() for n, b in (macro or {}).items()}
    vs = [B("c%d" % i) for i in range(len(sets))]; pc = PC()
    for v, s in zip(vs, sets): pc.assume(inset(v, sorted(s)))
    src = [vs[ord(c) - 0xe000] if ord(c) >= 0xe000 else ord(c) for c in parts]
    defs = flat(*["#define %s %s\n" % (n.decode(), b.decode()) for n, b in macro.items()])
    res.count("sources"); res.sample(re.sub("[\ue000-\uf000]", "?", parts)[-200:])
    for p in run(defs + src, pc, **kw):
        res.count("paths")
        def ref(f):
            try: exp = reference(f, src, macro)
            except Any: return "any", None
            if p.st not in ("EXIT", "ABORT", "ASSERT"): return "bad", "ends with %s %s" % (p.st, p.msg)
            if rejected(p): return "bad", "rejected (%s)" % (p.msg or show(p.out()))
            w = fits(f, exp, p.file("p.o"))
            return ("bad", w) if w else ("ok", None)
        for q, (v, why) in forks(p.pc, ref):
            res.count({"any": "outside_claim", "ok": "compared", "bad": "bad"}[v])
            if v == "bad":
                mdl = q.model(); log = " ".join(l for l in p.log() if l.startswith("read=")) if hasattr(p, "log") else ""
                report(res, "%s: %s" % (name, re.sub(r"[^ -~]", "?", show(src, mdl))[-80:]), why + (" when %s" % log if log else ""), defs + src, mdl)
                if len(res.viols) > 5: return res
    return res
def tmpl(t, s):
    """? -> free byte from s"""
    out = ""; n = 0
    for c in t:
        if c == "?": out += chr(0xe000 + n); n += 1
        else: out += c
    return out, [s] * n
LEX = set(b"\"'\\/*\n a#"); LEX2 = set(b"\"\\/*\n\rA1"); ALL = set(range(1, 256)); OPS2 = set(b"+-*/%&|^<>=!#.,;:?()[]{}~ aA1_"); IDS = set(b"abcdefilnorstuxyzDEFILN_SC_019")
CTXL = {"code": "x y?%s?z;\n", "string": 'x "%s" y\n', "char": "x '%s' y\n", "comment": "x/*%s*/y\n", "line": "x //%s\ny\n", "start": "%s x\ny\n", "end": "x\ny %s", "afterq": 'f("a%s, b)\n', "slash": "a /%s b\n", "bs": "a\\%s b\n"}
if __name__ == "__main__":
    C = Check("P04", "translation_validation", "scpp's main executed symbolically on text with windows of free bytes; on every path the output is compared by Z3 with a reference of C's splices, comments, literals and tokens evaluated on the same bytes", [
        "windows of 2 to 7 free bytes in fixed contexts; all 255 byte values for the short ones, class representatives for the long ones", "characters C's source set lacks, unterminated literals and comments, and escapes, comment openers and macro names split by a splice are outside the claim", "short reads: every way to cut the source into three reads"])
    mod(); sx.native("scpp"); T = C.thorough
    def add(name, t, s, **kw): C.job(name, lambda: case(name, *tmpl(t, s), **kw))
    for n, c in CTXL.items():
        c = c.replace("?", "")
        add("lex:" + n, c % ("?" * (5 if T else 4)), LEX, paths=400000)
        add("lexm:" + n, c % ("?" * (5 if T else 4)), LEX2, macro={"A": "p 5"}, paths=400000)
        add("all:" + n, c % ("??" if T else "?"), ALL, paths=400000)
        for k in (509, 510) if not T else range(503, 513):
            pad = ("w" * 30 + "\n") * 20; cc = c % "???"; at = c.index("%s"); add("buf%d:%s" % (k, n), pad[:k - at - 2] + "\n" + cc, LEX, paths=400000)
    add("ops", "a ?" + ("??" if T else "?") + " b\n", OPS2, paths=400000); add("ops2", "a ?\\\n? b ?/**/?\n" if T else "a ?\\\n? b\n", OPS2, paths=400000)
    for i in range(1, 6 if T else 5): add("word%d" % i, "x " + "?" * i + " y\n", IDS if i < (4 if T else 3) else set(b"defin_"), macro={"end": "1"}, paths=400000)
    for w in ("?efin?", "i?def", "el?e", "?ndif ?f", "in?lude", "__S?D?_", "de?ined", "d?fined(x)", "#", "x # ?f 0", "pr?gma", "li?e 3", "er?or", "0x?F", "1?5e", "?.5?", "1e+?"): add("kw:" + w, "x " + w + "\n y\n", set(ID), paths=400000)
    add("str", '"???" \'?\'\n' if T else '"??" \'?\'\n', ALL, paths=400000)
    add("cmt", "a/*????*/b\n" if T else "a/*???*/b\n", ALL, paths=400000)
    SPL = ['#define A 1\\\n2\nA "b\\\nc"/* "\n */d//\\\ne\nf\'\\\'\' g<=h\n', "int main(void)\n{\n  return x->y+++3; // ok\n}\n", "\\\r\na \\\r\n/**/ b\"\\\\\"\r\n"]
    for i, s in enumerate(SPL):
        s = s.replace("#define A 1\\\n2\nA", "A")
        for k in range(0, len(s), 8): add("reads%d.%d" % (i, k), s[:k] + "?" + s[k + 1:], set(b"a \"/*\\\n"), chunks=2 if T else 1, paths=400000)
    sys.exit(C.run(need=["sources", "paths", "compared"]))
