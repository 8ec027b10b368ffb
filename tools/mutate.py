#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo's sources does no check notice?
mutate.py LANE NLANES SEED COUNT [file...]   (scratch copies under /tmp/mut.LANE; log to /tmp/mutc/LANE.log)
Not a check: a way to find gaps in the checks."""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM="/tmp/mutc/sim"  # a copy, so that one can go on editing
lane,nl,seed,count=map(int, sys.argv[1:5]); only=sys.argv[5:]
T=f"/tmp/mut.{lane}"; B=f"/tmp/mut.b{lane}"
FILES={ # file: (weight, properties in the order to try)
 "libstream/compress.c":(4,"C05 C04 C06 C07 C17"), "libstream/stream.c":(4,"C07 C11 C05 C06 C12 C04 C01"),
 "libstream/url_file.c":(1,"C04 C05 C12 C07 C17"), "libstream/url_tcp.c":(4,"C11 C09 C07 C10"), "libstream/url_telnet.c":(4,"C09 C10 C11"),
 "libstream/url_termcast.c":(4,"C10 C11 C07"), "libstream/url_curl.c":(1,"C07 C12 C11"), "libstream/prefix.c":(1,"C05 C11"),
 "libtty/asciicast.c":(5,"C08 C01 C12 C02 C17 C04 C03"), "libtty/formats.c":(6,"C08 C12 C01 C02 C16 C04 C17 C03"), "libtty/files.c":(3,"C08 C12 C04 C17 C16 C27 C29 C01"),
 "libtty/dosrecorder.c":(2,"C17 C08 C12"), "libtty/timeline.c":(5,"C13 C15 C27 C29 C14 C12"),
 "libtty/tty.c":(5,"C28 C30 C26 C27 C29 C13 C15"), "libtty/vtredir.c":(2,"C30 C15 C13"), "libtty/charsets.c":(0,"C15"), "libtty/colors.c":(0,"C15"),
 "play/player.c":(5,"C14 C15 C18 C13"), "play/termplay.c":(5,"C15 C14 C18"), "rec/pty.c":(4,"C01 C18 C02 C03"), "rec/termrec.c":(6,"C01 C18 C02 C03 C04 C19"),
 "common/open_out.c":(3,"C19 C04 C12 C01"), "common/rec_args.c":(2,"C19 C01 C04"), "common/args.c":(1,"C12 C19 C01"), "cat/termcat.c":(2,"C12 C04 C17 C06"), "time/termtime.c":(2,"C12 C17"),
}
def sh(c, t=300, **k):
    try: r=subprocess.run(c, shell=isinstance(c,str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace", **k); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 124, ""
def blank(src): # comments, strings and char constants blanked, same length
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
def muts(src):
    b=blank(src); out=[]; pos=0; skip=0
    inact=[]
    for ln in b.split("\n"):
        s=ln.strip()
        if s.startswith("#"):
            if re.match(r'#\s*if', s): inact.append(bool(re.match(r'#\s*(ifdef\s+(WIN32|_WIN32|IN_WIN32)|if\s+0|ifndef\s+(HAVE|SHIPPED))', s)))
            elif re.match(r'#\s*else', s) and inact: inact[-1]= not inact[-1] and False
            elif re.match(r'#\s*endif', s) and inact: inact.pop()
        elif not any(inact):
            for m in re.finditer(r'<=|>=|==|!=|(?<![<\->])<(?![<=])|(?<![->])>(?![>=])', ln):
                r={"<=":["<",">"],">=":[">","<"],"==":["!="],"!=":["=="],"<":["<=",">="],">":[">=","<="]}[m.group(0)]
                for x in r: out.append((pos+m.start(), pos+m.end(), x))
            for m in re.finditer(r'&&|\|\|', ln): out.append((pos+m.start(), pos+m.end(), "||" if m.group(0)=="&&" else "&&"))
            for m in re.finditer(r'(?<=[\w)\]])\s*([+-])\s*(?=[\w(])', ln): out.append((pos+m.start(1), pos+m.end(1), "-" if m.group(1)=="+" else "+"))
            for m in re.finditer(r'(\+\+|--)', ln): out.append((pos+m.start(), pos+m.end(), "--" if m.group(0)=="++" else "++"))
            for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9a-fA-F]+)(?![\w.])', ln):
                s0=m.group(1); v=int(s0, 8 if s0[0]=="0" and s0.isdigit() else 0)
                for x in (v+1, v-1 if v else 2): out.append((pos+m.start(), pos+m.end(), str(x)))
            m=re.search(r'\b(if|while)\s*\(', ln)
            if m:
                d=0; i=m.end()-1
                while i<len(ln):
                    if ln[i]=="(": d+=1
                    elif ln[i]==")":
                        d-=1
                        if not d: break
                    i+=1
                if i<len(ln):
                    for x in (["0","1"] if m.group(1)=="if" else ["0"]): out.append((pos+m.end(), pos+i, x))
            if s.endswith(";") and not re.match(r'(return\b(?!;)|typedef|extern|static|const|struct|int|char|unsigned|long|size_t|ssize_t|FILE|pthread_\w+_t|sigset_t|uint\w*|[A-Z]\w+ \*?\w+;|case|default|else|for|do)', s) and re.search(r'[(=]|^(break|continue|return|goto)|\+\+|--', s) and s.count("(")==s.count(")"):
                k=len(ln)-len(ln.lstrip()); m2=re.match(r'(?:if|while)\s*\(', s)
                if m2:
                    d=0; i=k+m2.end()-1
                    while i<len(ln):
                        if ln[i]=="(": d+=1
                        elif ln[i]==")":
                            d-=1
                            if not d: break
                        i+=1
                    k=i+1
                if ln[k:].strip()!=";": out.append((pos+k, pos+len(ln), ";"))
            if re.match(r'return\s+[^;]+;', s): 
                m=re.search(r'return\s+([^;]+);', ln)
                for x in ("0","-1","1"):
                    if m.group(1).strip()!=x: out.append((pos+m.start(1), pos+m.end(1), x))
        pos+=len(ln)+1
    return out
TEST="make -j4 >/dev/null 2>&1 && cd tests && make clean-checkPROGRAMS >/dev/null && rm -rf .libs testsuite testsuite.dir && make -j4 -f Makefile -f /opt/vp/tests.mk vp-tests >/dev/null 2>&1 && env --default-signal=PIPE timeout -k 5 100 /bin/bash ./testsuite </dev/null >/tmp/mutc/%d.t 2>&1; echo rc=$?" % lane
env=dict(os.environ, SIM_REPO=T, SIM_BUILD=B)
shutil.copytree(VERIF+"/sim", SIM, dirs_exist_ok=True)
shutil.rmtree(T, ignore_errors=True); subprocess.run(["cp","-a","/repo",T])
os.makedirs(B, exist_ok=True)
for f in os.listdir(VERIF+"/build"):
    if f.startswith(("h-","g-")): shutil.copy(f"{VERIF}/build/{f}", B)
os.makedirs("/tmp/mutc", exist_ok=True)
log=open(f"/tmp/mutc/{lane}.log", "a")
print(sh("make distclean; ./configure CC=gcc && make -j4", cwd=T)[0], sh(TEST, cwd=T)[1])
assert sh(["python3",SIM+"/build.py","plain"], env=env)[0]==0
rng=random.Random(seed*1000+lane)
files=[f for f in FILES if not only or f in only]
cand={f:muts(open(f"/repo/{f}").read()) for f in files}
done=set()
jobs=max(1, 8//nl)
for n in range(count):
    f=rng.choices(files, [FILES[x][0] for x in files])[0]
    src=open(f"/repo/{f}").read(); a,e,x=rng.choice(cand[f])
    if (f,a,e,x) in done: continue
    done.add((f,a,e,x))
    ln=src.count("\n",0,a)+1; new=src[:a]+x+src[e:]
    old=src.split("\n")[ln-1].strip(); nw=new.split("\n")[ln-1].strip()
    ident=f"{f}:{ln}: {old}  =>  {nw}"
    open(f"{T}/{f}","w").write(new)
    t0=time.time(); res=None
    try:
        rc,o=sh(["python3",SIM+"/build.py","plain"], env=env)
        if rc: res="nocompile"; continue
        for p in FILES[f][1].split():
            rc,o=sh([B+"/sim-plain","batch",p,str(rng.randrange(10**6)),"0","4000",str(jobs),"18",f"/tmp/mutc/{lane}.json",""], t=120)
            try: v=json.load(open(f"/tmp/mutc/{lane}.json"))["violations"]
            except Exception: v=[]
            if rc!=0 or v: res=f"killed {p} {v[0]['idx'] if v else rc} {v[0]['wl']+' '+v[0]['cls'] if v else ''}"; break
        if not res:
            rc,o=sh(TEST, cwd=T, t=300)
            res="SURVIVED" if "rc=0" in o else "tests-only"
    finally:
        open(f"{T}/{f}","w").write(src)
        log.write(f"{res}\t{ident}\t{time.time()-t0:.0f}s\n"); log.flush()
