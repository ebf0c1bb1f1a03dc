"""pretty-print a body: show.py KEYSUBSTR"""
import sys, json
import dump
def pp_place(p): 
    s=f"_{p[0]}"
    for e in p[1]:
        if e[0]=="deref": s=f"(*{s})"
        elif e[0]=="field": s+=f".{e[1]}"
        elif e[0]=="index": s+=f"[_{e[1]}]"
        elif e[0]=="downcast": s+=f"@{e[2]}"
        else: s+=str(e)
    return s
def pp_op(o):
    if o[0] in("copy","move"): return ("" if o[0]=="copy" else "move ")+pp_place(o[1])
    if o[0]=="const":
        v=o[2]
        if "fn" in v: return "fn "+str(v["fn"]["full"])+" => "+str(v["fn"]["key"])
        return json.dumps(v)
    return str(o)
def pp_rv(r):
    return r[0]+" "+", ".join(pp_op(x) if isinstance(x,list) and x and x[0] in("copy","move","const") else (pp_place(x) if isinstance(x,list) and len(x)==2 and isinstance(x[0],int) and isinstance(x[1],list) else (str([pp_op(y) for y in x]) if isinstance(x,list) and x and isinstance(x[0],list) else str(x))) for x in r[1:])
def show(b,tys):
    print("====",b["key"],b["span"][:2],b["vis"],"argc",b["argc"],"generic" if b["generic"] else "")
    print("  names",[(n,pp_place(p)) for n,p in b["names"]])
    for i,t in enumerate(b["locals"]): print(f"   _{i}: {tys[t]['s']}")
    for i,bl in enumerate(b["blocks"]):
        if bl["cleanup"]: continue
        print(f"  bb{i}:")
        for s in bl["s"]:
            if s[0]=="assign": print("     ",pp_place(s[1]),"=",pp_rv(s[2]))
            elif s[0]!="dead": print("     ",s)
        t=bl["t"]
        if t[0]=="call": print("     ",pp_place(t[3]),"= call",pp_op(t[1]),"(",", ".join(pp_op(x) for x in t[2]),") ->",t[4])
        elif t[0]=="switch": print("      switch",pp_op(t[1]),t[2],"else",t[3])
        elif t[0]=="assert": print("      assert",pp_op(t[1]),t[2],t[3][0],"->",t[4])
        else: print("     ",t)
if __name__=="__main__":
    d=dump.get(__import__("os").environ.get("CFG","dev"))
    for c in d.values():
        for b in c["bodies"]:
            if sys.argv[1] in b["key"]: show(b,c["types"])
