"""Reference C preprocessor for macros (Prosser's algorithm with hide sets), on concrete token lists."""
import re
PUNCT = ["...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"]
TOK = re.compile(r'(?P<ws>\s+)|(?P<num>\.?[0-9\ue000-\ue0ff](?:[eE][+-]|[A-Za-z0-9_.\ue000-\ue0ff])*)|(?P<id>[A-Za-z_][A-Za-z0-9_\ue000-\ue0ff]*)|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<chr>\'(?:\\.|[^\'\\\n])*\')|(?P<p>' + "|".join(map(re.escape, PUNCT)) + r'|[^\s])')
class Any(Exception): "not defined by C, or outside the claim"
class Bad(Exception): "a constraint violation that must be diagnosed"
class T:
    __slots__ = ("s", "k", "hs", "ws", "mk") # mk: calls in whose argument a macro expansion produced the token
    def __init__(self, s, k, hs=frozenset(), ws=False, mk=frozenset()): self.s = s; self.k = k; self.hs = hs; self.ws = ws; self.mk = mk
    def cp(self, hs=None, ws=None): return T(self.s, self.k, self.hs if hs is None else hs, self.ws if ws is None else ws, self.mk)
def lex(text):
    out = []; ws = False
    for m in TOK.finditer(text):
        if m.lastgroup == "ws": ws = True; continue
        out.append(T(m.group(), m.lastgroup, frozenset(), ws)); ws = False
    return out
def spell(ts): return [t.s for t in ts]
class Macro:
    def __init__(self, params, body):
        self.params = params; self.body = body; b = [t.s for t in body]
        self.plain = {s for i, s in enumerate(b) if s in (params or ()) and b[i - 1:i] not in (["#"], ["##"]) and b[i + 1:i + 2] != ["##"]}
        if b[:1] == ["##"] or b[-1:] == ["##"]: raise Any # a constraint violation, found by scpp only when the macro is used
        if params is not None and any(s == "#" and b[i + 1:i + 2] not in [[q] for q in params] for i, s in enumerate(b)): raise Any
        if params is None and any(s == "#" and "##" in b[i - 1:i] + b[i + 1:i + 2] for i, s in enumerate(b)): raise Any
class PP:
    def __init__(self): self.m = {}; self.ctx = []; self.invoked = [set()]; self.steps = 0
    def define(self, text):
        m = re.match(r"\s*(\w+)", text); name = m.group(1); rest = text[m.end():]; params = None
        if rest.startswith("("):
            i = rest.index(")"); params = [p.strip() for p in rest[1:i].split(",")] if rest[1:i].strip() else []; rest = rest[i + 1:]
        body = lex(rest)
        if body: body[0].ws = False
        self.m[name] = Macro(params, body)
    def undef(self, n): self.m.pop(n, None)
    def expand(self, ts):
        out = []; ts = list(ts); scopes = [] # scopes: (tokens left after a replacement, macros invoked in its arguments)
        outer = self.rescan
        while ts:
            self.steps += 1
            if self.steps > 3000: raise Any
            while scopes and len(ts) <= scopes[-1][0]: scopes.pop()
            self.rescan = outer.union(*[s for _, s in scopes])
            t = ts.pop(0)
            if t.k != "id" or t.s not in self.m or t.s in t.hs: out.append(t); continue
            m = self.m[t.s]
            if m.params is None:
                for s in self.invoked: s.add(t.s)
                r = self.subst(m, {}, t.hs | {t.s}, [])
                if r: r[0] = r[0].cp(ws=t.ws)
                elif ts and t.ws: ts[0] = ts[0].cp(ws=True)
                ts = r + ts; continue
            if not ts or ts[0].s != "(": out.append(t); continue
            args = []; cur = []; d = 0; i = 1; end = None; sig = [ts[0]]
            while i < len(ts):
                x = ts[i]
                if x.s == "(": d += 1
                elif x.s == ")":
                    if d == 0: end = i; sig.append(x); break
                    d -= 1
                if x.s == "," and d == 0: args.append(cur); cur = []; sig.append(x)
                else: cur.append(x)
                i += 1
            if end is None: raise Any # depends on what follows (unspecified) or an unterminated call
            args.append(cur)
            if not m.params and args == [[]]: args = []
            if t.hs != ts[end].hs:
                if any(self.m[n].params for n in t.hs): raise Any # a call left open by a macro with parameters, outside the claim
                self.unspec = True # unspecified in C: whether this is nested in the replacement
            if any(x.mk - t.mk for x in sig): raise Any # recorded as a finding: ( , or ) from a macro in an argument
            # known limitation of scpp, recorded as a finding: a call of a macro within its own argument
            if any(t.s in x.hs for a in args for x in a): raise Any
            if t.s in self.ctx: raise Any
            if t.s in self.rescan: raise Any
            if len(args) != len(m.params): raise Bad if len(args) > len(m.params) or len(args) > 1 or args[0] else Any
            hs = (t.hs if self.alt else t.hs & ts[end].hs) | {t.s}
            for s in self.invoked: s.add(t.s)
            self.invoked.append(set()); self.ctx.append(t.s)
            ex = [self.expand(a) if p in m.plain else [] for p, a in zip(m.params, args)]
            self.calls += 1
            for e, a in zip(ex, args):
                raw = {id(x) for x in a}
                for x in e:
                    if id(x) not in raw: x.mk = x.mk | {self.calls}
            self.ctx.pop(); inv = self.invoked.pop()
            r = self.subst(m, dict(zip(m.params, zip(args, ex))), hs, m.params)
            if r: r[0] = r[0].cp(ws=t.ws)
            elif ts[end + 1:] and t.ws: ts[end + 1] = ts[end + 1].cp(ws=True)
            ts = r + ts[end + 1:]; scopes.append((len(ts) - len(r), inv))
        self.rescan = outer
        return out
    rescan = frozenset(); alt = False; unspec = False
    def subst(self, m, args, hs, params):
        out = []; b = m.body; i = 0
        while i < len(b):
            t = b[i]
            if t.s == "#" and m.params is not None:
                if i + 1 >= len(b) or b[i + 1].s not in args and b[i + 1].s not in params: raise Bad
                out.append(T(self.stringize(args[b[i + 1].s][0]), "str", frozenset(), t.ws)); i += 2; continue
            def opnd(k): # the k-th body token as operand of ##: raw argument or token
                x = b[k]
                if x.s in args: a = [y.cp() for y in args[x.s][0]]; return a
                return [x.cp()]
            if i + 1 < len(b) and b[i + 1].s == "##":
                cur = opnd(i); j = i + 1
                if len(cur) > 1: raise Any # scpp's limit: one token per operand (rejected)
                while j < len(b) and b[j].s == "##":
                    if j + 1 >= len(b): raise Bad
                    if b[j + 1].s == "#" and m.params is not None: raise Any
                    r = opnd(j + 1)
                    if len(r) > 1: raise Any
                    if not cur: cur = r
                    elif r: cur = [self.paste(cur[0], r[0])]
                    j += 2
                if cur: cur[0] = cur[0].cp(ws=t.ws)
                out += cur; i = j; continue
            if t.s in args:
                e = [x.cp() for x in args[t.s][1]]
                if e: e[0].ws = t.ws
                out += e
            else: out.append(t.cp())
            i += 1
        return [x.cp(hs=x.hs | hs) for x in out]
    def paste(self, a, b):
        s = a.s + b.s; l = lex(s)
        if len(l) != 1 or a.k in ("str", "chr") or b.k in ("str", "chr"): raise Any # undefined in C
        return T(s, l[0].k, a.hs & b.hs, a.ws)
    def stringize(self, a):
        o = ""
        for i, t in enumerate(a):
            if i and t.ws: o += " "
            o += re.sub(r'(["\\])', r"\\\1", t.s) if t.k in ("str", "chr") else t.s
        return '"' + o + '"'
    def top(self, text):
        """the tokens of the expanded text"""
        self.rescan = frozenset(); self.unspec = False; self.alt = False; self.ctx = []; self.invoked = [set()]; self.steps = 0; self.calls = 0
        r = spell(self.expand(lex(text)))
        if self.unspec:
            self.alt = True; q = spell(self.expand(lex(text)))
            if q != r: raise Any
        return r
