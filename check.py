#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the simulator from /repo's working tree, runs seeded
simulations of the property's workloads, and reports.  Exit 0 held, 1 violation, anything else: no answer."""
import json, os, re, subprocess, sys, time
VERIF=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import INFO
BUILD=os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
prop=sys.argv[1]
tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER", "quick")
seed=int(os.environ.get("VERIF_SEED", "1") or 1)
jobs=os.cpu_count() or 4
info=INFO[prop]
t0=time.time()
sys.stdout.reconfigure(errors="replace")

def die(msg):
    print("ERROR: "+msg); sys.stdout.flush(); sys.exit(2)

env=dict(os.environ)
r=subprocess.run([sys.executable, os.path.join(VERIF, "sim", "build.py")], env=env)
if r.returncode: die("the build failed")
t_build=time.time()-t0

# known findings: "KNOWN property=<id> class=<violation class> match=<regex> :: description"
known=[]
for l in open(os.path.join(VERIF, "known-findings.txt")):
    m=re.match(r"KNOWN property=(\S+) class=(\S+) :: (.*)", l)
    if m and m.group(1)==prop: known.append((m.group(2), m.group(3).strip()))

mult=1 if tier=="quick" else 25
plan=[("plain", int(info.runs*mult), info.cap*mult), ("asan", int(info.asan_runs*mult), info.cap*mult)]
tot=None; viol=None; samples=[]; doubt=None
for var, count, limit in plan:
    if not count: continue
    out=os.path.join(BUILD, f"batch-{prop}-{var}.json")
    cmd=[os.path.join(BUILD, "sim-"+var), "batch", prop, str(seed), "0" if var=="plain" else "1000000000", str(count), str(jobs), str(limit), out, ",".join(k for k,_ in known)]
    r=subprocess.run(cmd)
    if r.returncode: die(f"the simulator ended with status {r.returncode}")
    d=json.load(open(out, errors="replace"))
    os.unlink(out)
    d["variant"]=var
    if tot is None: tot={"parts": [], "faults": {}, "probes": {}, "known": {}, "n": {}}
    for k in ("runs","nontrivial","distinct_interleavings","distinct_histories","switches","preemptions","sim_us","events","double_checked"):
        tot["n"][k]=tot["n"].get(k, 0)+d[k]
    tot["n"]["blocks"]=max(tot["n"].get("blocks", 0), d["blocks"])
    for k in ("faults","probes"):
        for a,b in d[k].items(): tot[k][a]=tot[k].get(a, 0)+b
    for a,b in d["known"].items(): tot["known"][a]=tot["known"].get(a, 0)+b["n"]
    tot["parts"].append({"build": var, "runs": d["runs"], "planned": count, "wall_s": d["wall_s"], "runs_per_hour": int(d["runs"]/max(d["wall_s"], .01)*3600)})
    samples+=d["samples"][:4]
    vs=d["violations"]
    hs=[v for v in vs if v["harness"]]
    vs=[v for v in vs if not v["harness"]]
    if vs:
        viol=(var, vs[:4]); break
    # no answer yet - but overrun memory can do that in the plain build, and then the other one tells
    if d["nondet"]: doubt=doubt or "a run is not repeatable: "+d["nondet"]
    if hs: doubt=doubt or f"run {hs[0]['idx']} ({hs[0]['wl']}, {var}): {hs[0]['msg']}"
if doubt and not viol: die(doubt[:2000])

def evidence(nviol, extra=None):
    n=tot["n"]
    cov={"evaluations": n["runs"], "distinct_nontrivial": n["distinct_histories"] if n["nontrivial"]==n["runs"] else min(n["distinct_histories"], n["nontrivial"]),
        "rule": info.rule+" A run counts as non-trivial when it reached the behaviour the property is about; runs are distinct when their complete event histories (system calls, data, virtual times, thread switches) hash differently.",
        "samples": samples or ["(none)"],
        "distinct_interleavings": n["distinct_interleavings"],
        "interleaving_measure": "hash of the sequence of (thread, event) pairs at which the simulated scheduler switched threads",
        "thread_switches": n["switches"], "forced_preemptions": n["preemptions"], "events": n["events"],
        "simulated_seconds": round(n["sim_us"]/1e6, 3), "basic_blocks_reached": n["blocks"],
        "runs_repeated_to_check_determinism": n["double_checked"],
        "seeds_per_hour": int(n["runs"]/max(sum(p["wall_s"] for p in tot["parts"]), .01)*3600),
        "parts": tot["parts"], "faults_injected": tot["faults"], "rare_conditions_reached": tot["probes"],
        "known_findings_hit": tot["known"],
        "real_components": info.real, "stubbed_components": info.stub, "build_s": round(t_build, 1)}
    if extra: cov["violation"]=extra
    e={"property": prop, "tier": tier if tier in ("quick","thorough") else "quick", "seed": seed, "level": "exploration", "coverage": cov,
       "assumptions": info.assume, "wall_s": round(time.time()-t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p=os.path.join(VERIF, "evidence", prop+".json")
    with open(p+".new", "w") as f: json.dump(e, f, indent=1)
    os.rename(p+".new", p)

for cls, text in known:
    print(f"KNOWN-FINDING: property={prop} {text} (class {cls}, met in {tot['known'].get(cls, 0)} of {tot['n']['runs']} runs)")

if not viol:
    evidence(0)
    n=tot["n"]
    print(f"{prop}: held in {n['runs']} simulated runs ({n['distinct_interleavings']} interleavings, {n['sim_us']/1e6:.0f} simulated s) in {time.time()-t0:.0f} s")
    sys.exit(0)

var, vs=viol
bin=os.path.join(BUILD, "sim-"+var)
os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
def confirm(v):
    """minimises the failing run into a replay file and replays that twice"""
    rep=os.path.join(BUILD, "replays", f"{prop}-{var}-{seed}-{v['idx']}.replay")
    print(f"{prop}: run {v['idx']} of seed {seed} ({v['wl']}, {var} build) fails: {v['cls']}: {v['msg'][:1000]}")
    sys.stdout.flush()
    r=subprocess.run([bin, "min", prop, str(seed), str(v["idx"]), rep, "20" if tier=="quick" else "120"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.returncode: return "cannot reproduce the failing run: "+r.stderr.strip(), None, None
    print("minimised: "+r.stdout.strip()[:2000])
    for i in range(2):
        q=subprocess.run([bin, "replay", rep], stdout=subprocess.PIPE, text=True, errors="replace")
        if q.returncode!=1: return f"replaying {rep} does not give the same violation (status {q.returncode}): {q.stdout.strip()}", None, None
    return None, rep, r
for v in vs:
    why, rep, r=confirm(v)
    if not why: break
    print(why)
else:
    # memory that is overrun makes what follows depend on what happens to lie there: such runs
    # are judged by the other build, which stops at the overrun itself
    if var!="plain": die(why)
    var="asan"; bin=os.path.join(BUILD, "sim-asan")
    for v in vs:
        o=os.path.join(BUILD, f"batch-{prop}-asan.json")
        q=subprocess.run([bin, "batch", prop, str(seed), str(v["idx"]), "1", "1", "60", o])
        if q.returncode: die(why)
        d=json.load(open(o, errors="replace")); os.unlink(o)
        a=[x for x in d["violations"] if not x["harness"]]
        if not a: continue
        v=a[0]
        w2, rep, r=confirm(v)
        if not w2: break
        print(w2)
    else: die(why)
evidence(1, {"class": v["cls"], "message": r.stdout.strip(), "replay": rep, "workload": v["wl"]})
print(f"replay with: {bin} replay {rep} trace")
print(f"VIOLATION property={prop} replay={rep}")
sys.exit(1)
