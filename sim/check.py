#!/usr/bin/env python3
# python3 sim/check.py Cxx : decides one property on /repo's current tree. VERIF_SEED, VERIF_TIER=quick|thorough.
import json,os,subprocess,sys,time,shutil,signal
SIM=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,SIM)
import build as B
VERIF=os.path.dirname(SIM); KNOWN=VERIF+'/known_findings.txt'; EV=os.environ.get('SIM_EVIDENCE',VERIF+'/evidence'); REPLAYS=os.environ.get('SIM_REPLAYS',VERIF+'/replays')
NW=8
# executables each worker runs, and (quick, thorough) wall seconds of search
PLAN={'C01':['simt'],'C02':['sim0','sim1','simt','sima'],'C03':['simt'],'C04':['sim0','sim1'],'C05':['sim1','sim0'],'C06':['sim0','sim1'],'C07':['sim0','sim1'],
      'C08':['sim1','sim0'],'C10':['sim0','sim1'],'C11':['sim0','sim1'],'C09':['c09'],'C12':['c12']}
WALL={'quick':float(os.environ.get('SIM_WALL','75')),'thorough':float(os.environ.get('SIM_WALL','650'))}
SEEDED_RULE=('A case is one simulated run: a pristine process executing a plan (calls on simulated threads, schedule switches, interrupts, faults) drawn from the seed. '
  'It is non-trivial if more than one call, a context switch, an interrupt or a fault happened in it, and distinct if its trace hash '
  '(every scheduling point taken, every fault injected, and every result) was not seen before by the same worker.')
def main():
    P=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); tier=tier if tier in WALL else 'quick'; seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); d,info=B.build(PLAN[P])
    ncat=len(B.CAT); exes=[e for e in PLAN[P] if e in info['exe']]
    if not exes or len(info['failed'])>ncat*len(PLAN[P])//2:
        print('harness error: the catalogue does not build'); [print(k,v[:1500]) for k,v in info['errors'].items()]; return 2
    out=f'{d}/out-{P}-{os.getpid()}'; os.makedirs(out,exist_ok=True); os.makedirs(REPLAYS,exist_ok=True); os.makedirs(EV,exist_ok=True)
    wall=WALL[tier]; procs=[]; nw=int(os.environ.get('SIM_WORKERS',NW))
    for i in range(nw):
        e=exes[i%len(exes)]
        cmd=[f'{d}/{e}','search','--prop',P,'--seed',str(seed),'--worker',str(i),'--nworkers',str(nw),'--runs','1000000000','--wall',str(wall),'--out',out,'--known',KNOWN]
        procs.append((e,i,subprocess.Popen(cmd,stdout=open(f'{out}/res{i}','w'),stderr=open(f'{out}/err{i}','w'),cwd=out,start_new_session=True)))
    # A worker ends with its first violation; once one is confirmed (replayed identically in two fresh processes), the others are stopped.
    res=[]; bad=[]; viol=[]; unrep=[]; deadline=time.time()+wall+110; left=list(procs); stopped=0
    while left:
        for t in list(left):
            e,i,p=t
            if p.poll() is None: continue
            left.remove(t)
            try: r=json.loads(open(f'{out}/res{i}').read().strip().splitlines()[-1])
            except Exception: bad.append(f'{e} worker {i}: exit {p.returncode} '+open(f'{out}/err{i}').read()[-300:]); continue
            res.append((e,r))
            for v in r['violations']:
                f,kind,detail=v.split('\t',2); outs=[]
                for _ in range(2):
                    try: q=subprocess.run([f'{d}/{e}','replay',f]+([] if e in ('c09','c12') else ['--known',KNOWN]),capture_output=True,text=True,timeout=60,cwd=out); outs.append((q.returncode,q.stdout.strip()))
                    except subprocess.TimeoutExpired: outs.append((9,'timeout'))
                if outs[0]==outs[1] and outs[0][0]==1 and outs[0][1].startswith('REPRODUCED identically'):
                    dst=f'{REPLAYS}/{os.path.basename(f)}'; shutil.copy(f,dst); viol.append(dict(replay=dst,kind=kind,detail=detail,exe=e,replay_cmd=f'{d}/{e} replay {dst}'))
                else: unrep.append(dict(detail=detail,got=outs))
        if viol and left: deadline=min(deadline,time.time()+5)
        if left and time.time()>deadline:
            for _,_,p in left:
                try: os.killpg(p.pid,signal.SIGKILL)
                except OSError: pass
                p.wait()
            if viol: stopped=len(left)
            else: bad+=[f'{e} worker {i}: did not end in time' for e,i,_ in left]
            break
        if left: time.sleep(0.3)
    for _,_,p in procs:
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
    tot={}; known=set()
    for e,r in res:
        for k,v in r['stats'].items(): tot[k]=tot.get(k,0)+v
        for k in ('executions','goldens','unconfirmed','other_property','goldens_unusable'): tot[k]=tot.get(k,0)+r.get(k,0)
        known|=set(r.get('known',[]))
    runs=tot.get('runs',0); sw=sum(r['wall'] for _,r in res) or 1; el=max([r['wall'] for _,r in res] or [1])
    samples=[s for _,r in res for s in r.get('samples',[])][:4]
    cov=dict(evaluations=runs,distinct_nontrivial=tot.get('distinct_nontrivial',0),rule=next((r['rule'] for _,r in res if 'rule' in r),SEEDED_RULE),samples=samples or ['none'],
        simulated_runs_per_hour=int(runs/el*3600),seeds_per_hour=int(runs/el*3600),seed_note='each run has its own seed, derived from VERIF_SEED, the batch number and the position in the batch',
        processes_executed=tot.get('executions',0),single_call_references=tot.get('goldens',0),simulated_time_steps=tot.get('steps',0),
        simulated_time_note='time inside a run is counted in simulator steps (memory accesses, calls and returns in simt; calls out of the library in sim0/sim1); the clock a run sees is simulated and advances only when read',
        distinct_schedules=tot.get('distinct_nontrivial',0),counters=tot,operations_in_catalogue=max([r.get('ops_usable',0) for _,r in res] or [0]),operations_exercised=max([r.get('ops_used',0) for _,r in res] or [0]),
        operations_unusable=sorted({u for _,r in res for u in r.get('unusable',[])})[:40],failures_left_to_other_properties=sorted({u for _,r in res for u in r.get('others',[])})[:20],
        executables=sorted({e for e,_ in res}),translation_units_not_compiling=info['failed'],workers=len(res),workers_lost=bad,workers_stopped_after_a_violation=stopped,unreproducible=unrep,
        real_code='all of include/thls/tops as compiled into the catalogue, GMP, MPFR and libstdc++ as installed',
        stubs='thread scheduler, pthread mutexes, condition variables, semaphores, once and __cxa_guard, interrupts, clocks, host and GMP allocators, stream buffers, locales, random generators, start-up and exit order; C09: disk and process; C12: the operators under injected faults')
    ev=dict(property=P,tier=tier,seed=seed,level='exploration',coverage=cov,wall_s=round(time.time()-t0,1),violations=len(viol),violation_details=viol,known_findings=sorted(known),
        assumptions=['x86-64, g++ 13, THLS_FW_UINT_ON_MASKED_UINT backend (the one the repository builds)','schedules are explored at the granularity of instrumented memory accesses under sequential consistency',
          'operations that do not work even when called alone are excluded and listed in operations_unusable'])
    json.dump(ev,open(f'{EV}/{P}.json','w'),indent=1)
    shutil.rmtree(out,ignore_errors=True)
    print(f"{P} {tier} seed={seed}: {runs} runs ({cov['distinct_nontrivial']} distinct), {tot.get('calls',0)} calls, {tot.get('steps',0)} steps, {len(viol)} violation(s), {time.time()-t0:.0f}s")
    for ln in open(KNOWN):
        if ln.startswith(f'known: property={P} '): print(f'KNOWN-FINDING: property={P} '+ln.split(' ',2)[2].strip())
    for u in unrep: print('not reported (did not reproduce):',u['detail'][:300])
    if viol:
        for v in viol[:4]: print('  ',v['kind'],v['detail'][:400])
        print(f"VIOLATION property={P} replay={viol[0]['replay']}"); return 1
    if len(bad)>nw//2 or runs==0:
        print('harness error:',bad[:3],'no simulated run' if runs==0 else ''); return 2
    return 0
sys.exit(main())
