"""P02: conditional groups keep exactly the active lines. Each line of the source is chosen by one symbolic byte."""
from pplib import *
# name -> (text, kind, argument)
OPT = {"if1": ("#if 1", "if", 1), "if0": ("#if 0", "if", 0), "ifdef": ("#ifdef D", "ifdef", 0), "ifndef": ("#ifndef D", "ifndef", 0), "elif1": ("#elif 1", "elif", 1), "elif0": ("#elif 0", "elif", 0), "else": ("#else", "else", 0), "endif": ("#endif", "endif", 0),
       "text": ("T", "text", 0), "D": ("D", "D", 0), "define": ("#define D 5", "define", 0), "undef": ("#undef D", "undef", 0), "error": ("#error q", "error", 0), "include": ("#include \"zz\"", "error", 0), "bad": ("#bad", "error", 0), "pragma": ("#pragma x", "none", 0), "line": ("#line 9", "none", 0), "null": ("#", "none", 0),
       "junk": ("don't @`F(\\x", "junk", 0), "junkif": ("#if @(1'", "junkif", 0), "hash": ("x # endif", "hash", 0), "ifD": ("#if D", "ifD", 0), "ifnD": ("#if !defined D", "ifndef", 0), "junkelif": ("#elif (,", "junkelif", 0), "comment": ("/* #endif */", "none", 0), "comment2": ("// #else", "none", 0), "str": ('"#else"', "str", 0),
       "if1b": ("  # if(1)// x", "if", 1), "if0b": ("#/**/if 0/**/", "if", 0), "elseb": ("\t#\telse x", "else", 0), "endifb": (" # endif /**/", "endif", 0), "elif1b": ("#elif!0", "elif", 1), "ifdefb": ("#ifdef/**/D", "ifdef", 0), "ifndefb": ("# ifndef\tD //", "ifndef", 0), "undefb": ("#undef D//c", "undef", 0), "multi": ("/*\n#else\n*/#endif", "endif", 0), "splice": ("#el\\\nse", "spl", 0), "inc": ("#include \"i.h\"", "inc", 0), "incu": ("#include <u.h>", "incu", 0)}
class Reject(Exception): pass
def ref(names, inc=None):
    """names: the chosen lines. Returns the text tokens, or None if the source must be rejected"""
    out = []; D = [False]; st = [] # st: [state, else seen]
    def act(): return all(s[0] == "T" for s in st)
    def go(names, base):
        for k, n in enumerate(names):
            t, kind, arg = OPT[n]
            if kind in ("if", "ifdef", "ifndef", "ifD", "junkif"):
                if not act(): st.append(["X", False]); continue
                if kind == "junkif": raise Reject
                v = arg if kind == "if" else D[0] if kind in ("ifdef", "ifD") else not D[0]
                st.append(["T" if v else "F", False])
            elif kind in ("elif", "junkelif"):
                if len(st) <= base or st[-1][1]: raise Reject
                if st[-1][0] == "T": st[-1][0] = "X"
                elif st[-1][0] == "F":
                    if kind == "junkelif": raise Reject
                    if arg: st[-1][0] = "T"
            elif kind == "else":
                if len(st) <= base or st[-1][1]: raise Reject
                st[-1][1] = True; st[-1][0] = {"T": "X", "F": "T", "X": "X"}[st[-1][0]]
            elif kind == "endif":
                if len(st) <= base: raise Reject
                st.pop()
            elif not act(): continue
            elif kind == "text": out.append("T%d" % k)
            elif kind == "D": out.append("5" if D[0] else "D")
            elif kind == "hash": out.append("x#endif")
            elif kind == "str": out.append('"#else"')
            elif kind == "define": D[0] = True
            elif kind == "undef": D[0] = False
            elif kind == "error": raise Reject
            elif kind == "junk": raise KeyError # not C text: nothing is claimed
            elif kind == "inc": out.append("i"); go(INC["i.h"][1], len(st)); out.append("j")
            elif kind == "incu":
                raise Reject
        if len(st) != base: raise Reject
    try: go(names, 0)
    except Reject: return None
    except KeyError: return "any"
    return out
INC = {"i.h": ("i\n#ifdef D\n#undef D\n#else\n#define D 5\n#endif\nj", ["ifdef", "undef", "else", "define", "endif"]), "u.h": ("#if 1\n#else\n", [])}
def line(sel, opts, k):
    ts = [OPT[o][0] for o in opts]; ts = [t + str(k) if t == "T" else t for t in ts]; w = max(map(len, ts))
    # white space before a trailing \ or newline does not matter: pad in front, which is allowed before # as well
    ts = [" " * (w - len(t)) + t for t in ts]
    out = []
    for i in range(w):
        e = const(ord(ts[0][i]), 8)
        for o in range(1, len(ts)): e = sel.eq(o).ite(const(ord(ts[o][i]), 8), e)
        v = e.val
        out.append(v if v is not None else e)
    return out + [10]
def case(pre, opts, k, post, nl=True):
    res = Result(); sels = [B("line%d" % i) for i in range(k)]; pc = PC()
    for s in sels: pc.assume(s.ult(len(opts)))
    src = []
    for i, n in enumerate(pre): src += flat(OPT[n][0].replace("T", "T%d" % i), "\n")
    for i, s in enumerate(sels): src += line(s, opts, len(pre) + i)
    for i, n in enumerate(post): src += flat(OPT[n][0].replace("T", "T%d" % (len(pre) + k + i)), "\n")
    if not nl: src = src[:-1]
    res.sample({"prefix": list(pre), "choices": list(opts), "symbolic_lines": k, "suffix": list(post)})
    for p in run(src, pc, {n: t[0] for n, t in INC.items()}):
        res.count("paths")
        def reference(f):
            ch = []
            for s in sels:
                for o in range(len(opts)):
                    if o == len(opts) - 1 or f.dec(s.eq(o)): ch.append(opts[o]); break
            return list(pre) + ch + list(post)
        for q, names in forks(p.pc, reference):
            res.count("line_sequences"); exp = ref(names); mdl = None; sig = "lines " + " / ".join(names)
            if p.st not in ("EXIT", "ABORT", "ASSERT"): mdl = q.model(); why = "ends with %s %s" % (p.st, p.msg)
            elif exp == "any": continue
            elif exp is None:
                res.count("rejected_sequences")
                if not rejected(p): mdl = q.model(); why = "accepted, the conditional directives are unbalanced or misplaced (or #error is active)"
            elif rejected(p): mdl = q.model(); why = "rejected (%s)" % (p.msg or show(p.out()))
            else:
                got = re.sub(r"\s", "", show(p.file("p.o"), q.model()))
                if got != "".join(exp): mdl = q.model(); why = "output is %r, the active lines are %r" % (got, "".join(exp))
            if mdl is not None: report(res, sig, why, src, mdl, {n: t[0] for n, t in INC.items()})
            if len(res.viols) > 5: return res
    return res
CTX = {"": ([], []), "if1": (["if1"], ["endif", "text"]), "if0": (["if0"], ["endif", "text"]), "if0else": (["if0", "else"], ["endif", "text"]), "if1else": (["if1", "else"], ["endif", "text"]), "elif1": (["if0", "elif1"], ["endif", "text"]), "elifdone": (["if1", "elif1"], ["else", "text", "endif", "text"]), "nest01": (["if0", "if1"], ["endif", "text", "else", "text", "endif"]),
       "nest10": (["if1", "if0"], ["endif", "text", "else", "text", "endif"]), "nest11": (["if1", "text", "if1", "text"], ["else", "text", "endif", "text", "endif"]), "nest00": (["if0", "if0", "if1"], ["endif", "endif", "text", "else", "D", "endif"]), "def": (["define", "ifdef", "D"], ["endif", "D", "ifndef", "text", "endif"])}
BASE = ["text", "if1", "if0", "elif1", "elif0", "else", "endif"]
if __name__ == "__main__":
    C = Check("P02", "translation_validation", "scpp's main executed symbolically on sources whose lines are each selected by a symbolic byte among directive and text lines; the output of every path is compared with the standard's conditional inclusion rules", [
        "every choice of the symbolic lines (3 to 8 of them) in each fixed context", "directive spellings: a fixed set with white space and comment variants", "nesting up to 8 groups (scpp's limit is 16, see P06)"])
    mod(); sx.native("scpp"); T = C.thorough
    allc = list(CTX.items())
    C.bounds = {"symbolic_lines": 8 if T else 7, "contexts": len(CTX), "line_alternatives": len(OPT)}
    G2 = ["text", "ifdef", "ifndef", "else", "endif", "D", "define", "undef"]
    G3 = ["text", "if1b", "if0b", "elif1b", "elseb", "endifb", "multi", "ifdefb"]
    G4 = ["if0", "endif", "junk", "junkif", "junkelif", "hash", "error", "include", "bad", "comment", "str", "pragma"]
    G5 = ["ifD", "ifnD", "define", "undefb", "else", "endif", "D", "ifndefb", "comment2", "null", "line", "inc"]
    for n, (a, b) in allc:
        C.job("base:" + n, case, a, BASE, 6 if T else 5, b)
        C.job("def:" + n, case, a, G2, 5 if T else 4, b)
        C.job("form:" + n, case, a, G3, 5 if T else 4, b)
        C.job("junk:" + n, case, a, G4, 4 if T else 3, b)
        C.job("misc:" + n, case, a, G5, 4 if T else 3, b)
    C.job("balance", case, [], ["if1", "else", "endif", "text"], 8 if T else 7, [], False)
    C.job("balance2", case, ["if0"], ["if0", "else", "elif1", "endif", "text"], 7 if T else 6, [], False)
    C.job("inc", case, [], ["inc", "incu", "if0", "else", "endif", "D"], 4 if T else 3, [])
    sys.exit(C.run(need=["paths", "line_sequences", "rejected_sequences"]))
