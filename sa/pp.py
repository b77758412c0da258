import json,sys
def pl(p):
    if isinstance(p,int): return f"_{p}"
    s=f"_{p[0]}"
    for e in p[1:]:
        k=e[0]
        s = {"*":lambda:f"(*{s})","f":lambda:f"{s}.{e[2]}","i":lambda:f"{s}[_{e[1]}]","c":lambda:f"{s}[{'-' if e[2] else ''}{e[1]}]","v":lambda:f"({s} as {e[2]})","s":lambda:f"{s}[{e[1]}..{e[2]}]"}.get(k,lambda:s+"?")()
    return s
def op(o):
    if "c" in o: return pl(o["c"])
    if "m" in o: return "move "+pl(o["m"])
    k=o["k"]
    if "fn" in k: return "fn "+fnn(k)
    return "const "+str(k.get("item") or k.get("v") or k.get("s") or k.get("promoted"))+":"+k["ty"]
def fnn(k): 
    return (k.get("rp") or k["p"])+("" if "r" in k or "tr" not in k else " [TR]")
def rv(r):
    t=r[0]
    if t=="use": return op(r[1])
    if t in("ref","raw"): return "&"+("mut " if r[1] else "")+pl(r[2])
    if t=="cast": return f"{op(r[2])} as {r[3]} ({r[1]})"
    if t=="bin": return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if t=="un": return f"{r[1]}({op(r[2])})"
    if t=="disc": return f"discr({pl(r[1])})"
    if t=="agg":
        n=r[1]
        if n=="adt": n=r[3]+"::"+r[5]
        if n=="closure": n="closure "+r[3]
        return f"{n}({', '.join(map(op,r[2]))})"
    return str(r)
def show(f):
    print(f["path"],f["file"],f["line"],"nargs",f["nargs"])
    nm={}
    for n,p in f["names"]: nm.setdefault(pl(p),n)
    for i,l in enumerate(f["locals"]): print(f"   _{i}: {l}  {nm.get('_%d'%i,'')}")
    for i,b in enumerate(f["blocks"]):
        if b.get("cl"): continue
        print(f" bb{i}:")
        for s in b["s"]:
            if s[0]=="=": print(f"    {pl(s[1])} = {rv(s[2])}   // {s[3]}")
        t=b["t"]
        if t[0]=="call": 
            c=t[1]
            print(f"    {pl(t[3])} = CALL {fnn(c) if 'fn' in c else c}({', '.join(map(op,t[2]))}) -> {t[4]}  // {t[5]}")
        elif t[0]=="switch": print(f"    switch {op(t[1])} {t[2]} else {t[3]} // {t[5]}")
        elif t[0]=="assert": print(f"    assert {op(t[1])}=={t[2]} {t[3][0]} -> {t[4]}")
        else: print("   ",t)
if __name__=="__main__":
    d=json.load(open(sys.argv[1]))
    for f in d["fns"]:
        if sys.argv[2] in f["path"]: show(f)
