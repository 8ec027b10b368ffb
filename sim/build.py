#!/usr/bin/env python3
"""Builds the simulator: /repo's sources (instrumented, symbol-isolated) + the harness.
Usage: build.py [plain] [asan]   -> /verif/build/sim-plain, /verif/build/sim-asan"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
REPO=os.environ.get("SIM_REPO", "/repo")
BUILD=os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
INC=["-I"+HERE+"/config","-I"+REPO+"/sys","-I"+REPO+"/libtty","-I"+REPO+"/common","-I"+REPO+"/libstream","-I"+REPO]
CF=["-O1","-g","-std=gnu11","-fno-pie","-fno-common","-U_FORTIFY_SOURCE","-D_FORTIFY_SOURCE=0","-fsanitize-coverage=trace-pc",
    "-fno-stack-protector","-fno-builtin-malloc","-fno-builtin-calloc","-fno-builtin-realloc","-fno-builtin-free","-DHAVE_CONFIG_H","-DCURL_DISABLE_TYPECHECK","-w"]
HF=["-std=c++17","-O1","-g","-fno-pie","-U_FORTIFY_SOURCE","-Wall","-Wno-unused","-Wno-format-truncation","-I"+HERE,"-I"+HERE+"/config"]
TOOLS={"rec":"termrec","play":"termplay","cat":"termcat","time":"termtime"}

def run(cmd):
    r=subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd)+"\n"+r.stdout)
        raise SystemExit(3)

def sources(d):
    return sorted(f for f in glob.glob(f"{REPO}/{d}/*.c"))

def build_variant(var, pool):
    b=f"{BUILD}/{var}"
    os.makedirs(b, exist_ok=True)
    san=["-fsanitize=address","-fno-omit-frame-pointer"] if var=="asan" else []
    groups={"libtty": sources("libstream")+sources("libtty")+sources("sys")+sources("sys/unix")}
    for d,t in TOOLS.items():
        groups[t]=sources(d)+sources("common")+sources("sys")+sources("sys/unix")
    jobs=[]; objs={}
    for g,ss in groups.items():
        objs[g]=[]
        for s in ss:
            o=f"{b}/{g}-"+os.path.relpath(s, REPO).replace("/","_")+".o"
            ren=[f"-Dmain={g}_main"] if g!="libtty" else []
            jobs.append(["gcc"]+CF+san+ren+INC+["-c",s,"-o",o])
            objs[g].append(o)
    list(pool.map(run, jobs))
    outs=[]
    def combine(g):
        o=f"{b}/{g}.comb.o"
        run(["ld","-r","-o",o]+objs[g])
        cmd=["objcopy"]
        for fn in ("malloc","calloc","realloc","free","strdup","asprintf","vasprintf","gzdopen","BZ2_bzReadOpen","BZ2_bzWriteOpen","lzma_stream_decoder","lzma_easy_encoder","ZSTD_createDStream","ZSTD_createCStream"):
            cmd+=["--redefine-sym",f"{fn}=sim_{fn}"]
        run(cmd+[o])
        cmd=["objcopy","--rename-section",".data=sut_data","--rename-section",".bss=sut_bss",
             "--rename-section",".data.rel.local=sut_data","--rename-section",".data.rel=sut_data"]
        if g=="libtty":
            # the static library parts the tools also have are private to each
            cmd+=["--localize-hidden"]+sum([["--localize-symbol",x] for x in ("die","debuglog","get_tty_size")],[])
        else:
            cmd+=[f"--keep-global-symbol={g}_main"]
        run(cmd+[o])
        return o
    outs=[combine(g) for g in groups]
    return outs

def main():
    variants=[v for v in sys.argv[1:] if v in ("plain","asan")] or ["plain","asan"]
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        hdr="".join(open(h).read() for h in sorted(glob.glob(HERE+"/*.h")))
        hobjs={v:[] for v in variants}; jobs=[]
        for s in sorted(glob.glob(HERE+"/*.cc")):
            vs=variants if s.endswith("main.cc") else [None]
            for v in vs:
                d=["-DSIM_ASAN"] if v=="asan" else []
                key=hashlib.sha1((open(s).read()+hdr+repr(HF+d)).encode()).hexdigest()[:16]
                o=f"{BUILD}/h-{os.path.basename(s)}-{key}.o"
                if not os.path.exists(o):
                    jobs.append(["g++"]+HF+d+["-c",s,"-o",o])
                for x in ([v] if v else variants):
                    hobjs[x].append(o)
        for s in sorted(glob.glob(HERE+"/*.c")):
            o=f"{BUILD}/g-{os.path.basename(s)}.o"
            jobs.append(["gcc","-O1","-g","-fno-pie","-w","-I"+HERE,"-I"+HERE+"/config","-I"+REPO+"/libtty","-c",s,"-o",o])
            for x in variants: hobjs[x].append(o)
        hf=[pool.submit(run, j) for j in jobs]
        comb={v:build_variant(v, pool) for v in variants}
        for f in hf: f.result()
        for v in variants:
            out=f"{BUILD}/sim-{v}"
            run(["g++","-no-pie","-rdynamic","-o",out+".new"]+(["-fsanitize=address"] if v=="asan" else [])+hobjs[v]+comb[v]+["-lz","-lbz2","-llzma","-lzstd","-lm","-ldl","-lpthread"])
            os.rename(out+".new", out)

if __name__=="__main__": main()
