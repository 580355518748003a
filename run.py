#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: builds the harness of a property from /repo's working tree, runs it under its
sanitizers and monitors, decides, and rewrites evidence/PROPERTY.json.
Exit 0: held (known findings printed). Exit 1: VIOLATION line. Exit 2: the check itself failed (no verdict)."""
import json,os,re,subprocess,sys,tempfile,time,shutil,threading,queue,signal,hashlib
VERIF=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get("VERIF_REPO","/repo")
sys.path.insert(0,VERIF)
from checks import CHECKS
PID=sys.argv[1]; TIER=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
SEED=int(os.environ.get("VERIF_SEED","1") or 1); CK=CHECKS[PID]; T0=time.time()
JOBS=int(os.environ.get("VERIF_JOBS","8"))
SAN={"tsan":["-O1","-g1","-fsanitize=thread"],
     "asan":["-O1","-g1","-fsanitize=address"],
     "ubsan":["-O1","-g1","-fsanitize=address,undefined","-fno-sanitize=vptr,null,alignment,object-size,returns-nonnull-attribute,nonnull-attribute"],
     "asan0":["-O0","-g1","-fsanitize=address"],     # clang: much cheaper to build for template-heavy sequential oracles
     "plain":["-O1","-g1"],"plain0":["-O0"]}
LIBS="-lboost_thread -lboost_chrono -lboost_system -lboost_random -lboost_serialization -lboost_filesystem -lpthread".split()
WRAP=["-Wl,--wrap=pthread_mutex_lock","-Wl,--wrap=pthread_mutex_unlock"]
ENV=dict(os.environ)
ENV["TSAN_OPTIONS"]="halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=3:second_deadlock_stack=1:suppressions=%s/harness/tsan.supp"%VERIF
ENV["ASAN_OPTIONS"]="exitcode=66:detect_leaks=1:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=24:quarantine_size_mb=64"
ENV["UBSAN_OPTIONS"]="print_stacktrace=0:halt_on_error=0"
ENV["LSAN_OPTIONS"]="suppressions=%s/harness/lsan.supp:print_suppressions=0"%VERIF
ENV["TMPDIR"]=ENV.get("TMPDIR","/tmp")
if os.environ.get("VERIF_CCACHE"): ENV["CCACHE_DIR"]="/tmp/verif_ccache"
def die(msg): print("ERROR:",msg); sys.exit(2)

def load_known():
    out=[]
    for l in open(os.path.join(VERIF,"known_findings.jsonl")):
        l=l.strip()
        if l: out.append(json.loads(l))
    return out
KNOWN=[k for k in load_known() if k.get("status")=="known" and k.get("property")==PID]
def known_for(key):
    for k in KNOWN:
        if any(re.fullmatch(r,key) for r in k["keys"]): return k
    return None

work=tempfile.mkdtemp(prefix="verif_%s_"%PID)
ENV["TMPDIR"]=work
procs=set(); plock=threading.Lock()
def cleanup():
    with plock:
        for p in list(procs):
            try: os.killpg(p.pid,signal.SIGKILL)
            except Exception: pass
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work,ignore_errors=True)

def tu_name(tu): return re.sub(r"\W+","_","_".join(tu))
def build(tu,res):
    src,defs,san=tu
    exe=os.path.join(work,tu_name(tu)); cxx="clang++-18" if san.endswith("0") else "g++"; cc=[cxx]
    if os.environ.get("VERIF_CCACHE"): cc=["ccache",cxx]
    cmd=cc+["-std=c++20","-w","-ftemplate-depth=900","-fno-omit-frame-pointer"]+SAN[san]+defs.split()+["-I"+REPO,"-I"+VERIF+"/harness"]
    sp=os.path.join(VERIF,"harness",src)
    t=time.time()
    r=subprocess.run(cmd+["-c",sp,"-o",exe+".o"],capture_output=True,text=True,env=ENV)
    if r.returncode==0:
        r=subprocess.run([cxx]+SAN[san]+[exe+".o","-o",exe]+WRAP+LIBS,capture_output=True,text=True,env=ENV)
    res[tu]=(r.returncode,r.stderr[:6000],time.time()-t,exe)

viols=[]; stats=dict(evals=0,events=0,tokens=0,counts={},sigs=set(),samples=[],scen={}); errors=[]; vlock=threading.Lock(); stop=threading.Event()
KEYS=CK.get("keys")       # only violations of this kind are this property's; others belong to the checks of other properties
ignored={}
def add_viol(key,msg,scen,seed,it,tu,log=""):
    with vlock:
        if KEYS and not re.match(KEYS,key):
            ignored.setdefault(key,scen); return
        viols.append(dict(key=key,msg=msg,scen=scen,seed=seed,iter=it,tu=list(tu),log=log[:20000]))
        if not known_for(key) and not os.environ.get("VERIF_ALL"): stop.set()

FR=re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::(\d+))?(?::\d+)?(?: \(|$)")
def short(fn):
    fn=re.sub(r"<.*","",fn); fn=fn.replace("boost::asynchronous::",""); fn=re.sub(r"\(.*","",fn); return fn.split()[-1] if fn.split() else "?"
def frames(block,n=2):
    out=[]
    for l in block.splitlines():
        m=FR.search(l)
        if m and "/boost/asynchronous/" in m.group(2):
            f=os.path.basename(m.group(2))
            if not out or out[-1]!=f: out.append(f)
            if len(out)>=n: break
    return out
def parse_tsan(err):
    """one key per race report: kind and the innermost library files of both stacks"""
    out=[]
    for b in re.split(r"(?m)^={10,}$",err):
        m=re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)",b)
        if not m: continue
        kind=m.group(1).strip().replace(" ","-")
        parts=re.split(r"(?m)^\s*$",b); fs=[]
        # an exception object is freed (by free, not operator delete) by the last thread which held it: counted in uninstrumented libstdc++
        if kind=="data-race" and any(re.search(r"(?m)^\s+#0 free ",q) for q in parts[:2]): continue
        for q in parts[:2]:
            f=frames(q,1); fs.append(f[0] if f else "user")
        out.append(("tsan:%s:%s"%(kind,"+".join(sorted(set(fs)))),b))
    return out
def parse_asan(err):
    m=re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)",err)
    if not m: return None
    kind="leak" if m.group(1)=="LeakSanitizer" else m.group(2)
    f=frames(err[m.start():],1)
    return ("asan:%s:%s"%(kind,f[0] if f else "user"),err[m.start():m.start()+9000])
def parse_ubsan(err):
    out=[]
    for m in re.finditer(r"(?m)^(\S+?):(\d+):\d+: runtime error: (.*)$",err):
        k=re.sub(r"0x[0-9a-f]+|-?\d+","N",m.group(3))[:60]
        out.append(("ubsan:%s:%s"%(os.path.basename(m.group(1)),k),m.group(0)))
    return out

def run_scen(exe,tu,scen,seed,iters,again=0):
    if stop.is_set(): return
    cmd=[exe,"--run",scen,"--seed",str(seed)]+(["--thorough"] if TIER=="thorough" else [])+(["--iters",str(iters)] if iters is not None else [])
    t=time.time(); lim=240 if TIER=="quick" else 3600
    fo=tempfile.TemporaryFile("w+",dir=work,errors="replace"); fe=tempfile.TemporaryFile("w+",dir=work,errors="replace")
    p=subprocess.Popen(cmd,stdout=fo,stderr=fe,env=ENV,cwd=work,start_new_session=True)
    with plock: procs.add(p)
    to=False
    while True:
        try: p.wait(0.1); break
        except subprocess.TimeoutExpired: pass
        if time.time()-t>lim or stop.is_set():
            to=time.time()-t>lim
            try: os.killpg(p.pid,signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
            break
    with plock: procs.discard(p)
    fo.seek(0); fe.seek(0); out=fo.read(); err=fe.read(8000000); fo.close(); fe.close()
    done=False; lastcase=""
    for l in out.splitlines():
        if not l.startswith("@MON "): continue
        try: d=json.loads(l[5:])
        except ValueError: continue
        if d["t"]=="viol": add_viol(d["key"],d["msg"],d["scen"],d["seed"],d["iter"],tu,d.get("case",""))
        elif d["t"]=="done":
            done=True
            with vlock:
                stats["evals"]+=d["evals"]; stats["events"]+=d["events"]; stats["tokens"]+=d["tokens"]
                for k,v in d["counts"].items(): stats["counts"][k]=stats["counts"].get(k,0)+v
                stats["sigs"].update(scen+":"+x for x in d["sigs"]); stats["samples"]+=[scen+": "+x for x in d["samples"][:1]]
                stats["scen"][scen+"/"+tu[2]]=dict(evals=d["evals"],events=d["events"],distinct=len(d["sigs"]),wall=round(time.time()-t,2))
    for k,b in parse_tsan(err): add_viol(k,"ThreadSanitizer report",scen,seed,-1,tu,b)
    a=parse_asan(err)
    if a: add_viol(a[0],"AddressSanitizer/LeakSanitizer report",scen,seed,-1,tu,a[1])
    for k,b in parse_ubsan(err): add_viol(k,b,scen,seed,-1,tu,b)
    rc=p.returncode
    if stop.is_set() and rc==-9: return
    if to or rc==77:
        if again<1: return run_scen(exe,tu,scen,seed,iters,again+1)
        errors.append("%s %s: no verdict (rc %s, timeout %s)"%(tu_name(tu),scen,rc,to)); return
    if rc==-9:   # killed from outside (memory guard): no verdict
        errors.append("%s %s: killed"%(tu_name(tu),scen)); return
    if rc!=0 and not a:
        m=re.search(r"terminate called[^\n]*\n?[^\n]*",err); 
        add_viol("crash:%s:%s"%(scen,rc),(m.group(0) if m else "process died rc %s"%rc)+" | "+err[-600:],scen,seed,-1,tu,err[-9000:])
    elif not done and rc==0 and re.search(r"DEADLYSIGNAL|ERROR: ThreadSanitizer",err):
        i=err.find("ERROR: ThreadSanitizer"); f=frames(err[i:],1)
        m=re.search(r"ERROR: ThreadSanitizer: (\S+)",err)
        add_viol("crash:%s:%s"%(m.group(1) if m else "signal",f[0] if f else "user"),"process crashed",scen,seed,-1,tu,err[i:i+9000])
    elif not done and rc==0 and not any(v["scen"]==scen for v in viols) and scen not in ignored.values():
        errors.append("%s %s: ended without a record: %s"%(tu_name(tu),scen,err[-500:]))

def main():
    tus=[tuple(t) for t in CK["tus"]+(CK.get("tus_thorough",[]) if TIER=="thorough" else [])]
    res={}; ths=[]; sem=threading.Semaphore(JOBS)
    ready=queue.Queue(); results=[]
    def b(tu):
        with sem:
            build(tu,res)
        ready.put(tu)
    for tu in tus:
        th=threading.Thread(target=b,args=(tu,)); th.start(); ths.append(th)
    work_q=[]; 
    for th in ths: th.join()
    for tu in tus:
        rc,e,w,exe=res[tu]
        if rc: die("build of %s failed:\n%s"%(tu_name(tu),e[:4000]))
    tb=time.time()-T0
    seeds=[SEED]
    for tu in tus:
        exe=res[tu][3]
        ls=subprocess.run([exe,"--list"],capture_output=True,text=True,env=ENV)
        if ls.returncode: die("%s --list: %s"%(exe,ls.stderr[:1000]))
        flt=CK.get("only",{}).get(tu[0])
        for l in ls.stdout.splitlines():
            n,q,t=l.split()
            if os.environ.get("VERIF_ONLY") and not re.search(os.environ["VERIF_ONLY"],n): continue
            if flt and not re.search(flt,n): continue
            it=int(t if TIER=="thorough" else q)
            sc=CK.get("scale",{}).get(tu[0],CK.get("scale",{}).get(tu[2],1.0))
            if it>0: work_q.append((exe,tu,n,SEED,max(1,int(it*sc))))
            if TIER=="thorough" and it>0:
                for k in range(1,4): work_q.append((exe,tu,n,SEED+1000*k,max(1,int(it*sc))))
    N=len(work_q); it=iter(work_q); il=threading.Lock()
    def worker():
        while not stop.is_set():
            with il:
                w=next(it,None)
            if w is None: return
            run_scen(*w)
    ws=[threading.Thread(target=worker) for _ in range(CK.get("par",4))]
    for w in ws: w.start()
    for w in ws: w.join()
    new=[v for v in viols if not known_for(v["key"])]
    ev=dict(property=PID,tier=TIER,seed=SEED,level=CK.get("level","exploration"),wall_s=round(time.time()-T0,1),violations=len(set(v["key"] for v in new)),
      coverage=dict(evaluations=stats["evals"],distinct_nontrivial=len(stats["sigs"]),rule=CK["rule"],samples=stats["samples"][:12],
        monitored_events=stats["events"],tracked_objects=stats["tokens"],observed=stats["counts"],scenarios=stats["scen"],processes=N,
        builds=[" ".join(t)+": %.0f s"%res[t][2] for t in tus],known_findings_observed=sorted(set(v["key"] for v in viols if known_for(v["key"]))),inconclusive=errors,other_properties=sorted(ignored)),
      assumptions=CK.get("assumptions",["schedules are sampled, not enumerated; delays are injected at every lock operation of the header-only library and in user code"]))
    os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(VERIF,"evidence",PID+".json"),"w"),indent=1)
    for k in KNOWN: print("KNOWN-FINDING: property=%s %s"%(PID,k["what"]))
    if new:
        os.makedirs(os.path.join(VERIF,"evidence","replay"),exist_ok=True)
        seen={}
        for v in new: seen.setdefault(v["key"],v)
        for i,(k,v) in enumerate(sorted(seen.items())):
            rp=os.path.join(VERIF,"evidence","replay","%s-%s.json"%(PID,hashlib.sha1(k.encode()).hexdigest()[:10]))
            v=dict(v,property=PID,how="VERIF_SEED=%s VERIF_ONLY='^%s$' python3 run.py %s %s"%(v["seed"],v["scen"],PID,TIER))
            json.dump(v,open(rp,"w"),indent=1)
            print("violated: %s [%s iter %s] %s"%(k,v["scen"],v["iter"],v["msg"][:300].replace("\n"," ")))
            print("VIOLATION property=%s replay=%s"%(PID,rp))
        return 1
    if errors: print("\n".join(errors)); return 2
    print("OK %s %s: %d cases, %d distinct, %d events, build %.0f s, total %.0f s"%(PID,TIER,stats["evals"],len(stats["sigs"]),stats["events"],tb,time.time()-T0))
    return 0
try: rc=main()
finally: cleanup()
sys.stdout.flush(); sys.exit(rc)
