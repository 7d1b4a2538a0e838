# the reference preprocessor of P03 (checks/cpp_ref.py) against clang -E, on random macro programs
import sys,random,subprocess; sys.path.insert(0,'/verif/checks')
from cpp_ref import *
def gen(r):
    # random macro program, concrete
    def ident(): return r.choice("ABFGHExyp")
    def toks(n,params,d=0):
        o=[]
        for _ in range(n):
            k=r.random()
            if k<.35: o.append(ident())
            elif k<.5: o.append(str(r.randrange(10)))
            elif k<.6: o.append(r.choice(["+","-",";","*"]))
            elif k<.85 and d<2:
                f=r.choice("FGHAp"); na={"F":1,"G":2,"H":0}.get(f,1)
                o.append(f+r.choice([""," "])+"("+",".join(toks(r.randrange(0,3),params,d+1) for _ in range(na))+")")
            elif k<.9: o.append("("+toks(2,params,d+1)+")")
            elif k<.95 and params: o.append("#"+r.choice(params))
            elif params is not None: o.append(r.choice("ABxyp1+")+r.choice(["##"," ## "])+r.choice("ABxyFp2="))
            else: o.append('"A x"')
        return "".join(t+r.choice([""," "," "]) if t not in("+","-") else t+" " for t in o)
    ls=[]
    for n,ps in (("A",None),("B",None),("F",["x"]),("G",["x","y"]),("H",[]),("E",None)):
        if r.random()<.25: continue
        ls.append("#define %s%s %s"%(n,"" if ps is None else "("+",".join(ps)+")",toks(r.randrange(0,4),ps or ("" if ps is None else ps)).strip()))
    r.shuffle(ls)
    return ls, toks(4,None)
bad=0;n=0;anyc=0
for i in range(6000):
    r=random.Random(i); ls,t=gen(r)
    src="\n".join(ls)+"\n"+t+"\n"
    try:
        pp=PP()
        for l in ls: pp.define(l[8:])
        e=pp.top(t)
    except Any: anyc+=1; continue
    except Bad: e=None
    q=subprocess.run(["clang","-E","-P","-w","-"],input=src,capture_output=True,text=True)
    if e is None:
        if q.returncode==0: print("BADACC",src); bad+=1
        continue
    if q.returncode:
        if 'pasting formed' in q.stderr: continue
        bad+=1; print("CLANGERR",src,q.stderr[:200],e); continue
    n+=1
    if spell(lex(q.stdout))!=e:
        bad+=1; print(src,q.stdout,e)
    if bad>4: break
print(n,anyc,bad)
