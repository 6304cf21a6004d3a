#!/usr/bin/env python3
# Builds the simulators from /repo's current working tree into /verif/build/<key of the sources>. Importable: build() -> dir, info.
import hashlib,os,subprocess,sys,shutil,fcntl,json,time
from concurrent.futures import ThreadPoolExecutor
SIM=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(SIM); REPO=os.environ.get('SIM_REPO','/repo') # the override is for experiments on scratch copies only
CAT=['fp1','fp2','fp3','fp4','fp5','fp6','fp7','as2','as3','as4','dot','dot4','int','heap','mpfr','text','rng','pol','alias']
EXTRA={'pol':['-fno-inline','-g1'],'as2':['-Dthls=thls_as2'],'as3':['-Dthls=thls_as3'],'as4':['-Dthls=thls_as4'],'dot4':['-Dthls=thls_dot4']}
BASE=['-std=gnu++11','-fno-pie','-DTHLS_FW_UINT_ON_MASKED_UINT=1','-I'+REPO+'/include','-I'+SIM,'-w','-c']
VAR={'simt':['-O1','-fsanitize=thread'],'sim0':['-O0'],'sim1':['-O1'],
  'sima':['-O1','-fsanitize=address','--param','asan-instrumentation-with-call-threshold=0','--param','asan-use-after-return=0']}
def files(d,exts):
    r=[]
    for dp,dn,fn in os.walk(d):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts): r.append(os.path.join(dp,f))
    return r
def key():
    h=hashlib.sha256()
    for f in files(REPO+'/include',('.hpp','.h','.inc','.inl','.c'))+files(SIM,('.h','.cpp','.inc','.py')):
        h.update(f.encode()); h.update(open(f,'rb').read())
    h.update(subprocess.run(['g++','--version'],capture_output=True).stdout)
    return h.hexdigest()[:20]
def run(cmd,cwd=None,t=600):
    try: p=subprocess.run(cmd,capture_output=True,text=True,cwd=cwd,timeout=t)
    except subprocess.TimeoutExpired: return 1,'timed out'
    return p.returncode,p.stdout+p.stderr
LIBS=None
def libfuncs():
    global LIBS
    if LIBS is None:
        LIBS=set()
        for l in ['libstdc++.so.6','libc.so.6','libm.so.6','libmpfr.so.6','libgmp.so.10','libgcc_s.so.1']:
            p=subprocess.run(['g++','-print-file-name='+l],capture_output=True,text=True).stdout.strip()
            if not os.path.isabs(p): continue
            o=subprocess.run(['nm','-D','--defined-only',p],capture_output=True,text=True).stdout
            for ln in o.splitlines():
                a=ln.split()
                if len(a)==3 and a[1] in 'TWi': LIBS.add(a[2].split('@')[0])
    return LIBS
NEVER=('__tsan','__asan','_Unwind','__cxa_','__gxx','__stack_chk','sim_','simx_','__assert_fail','__gcc_personality','_Zn','_Zd','__libc','__dso','_ITM','__cxa')
def retarget(obj,rtdefs,variant):
    "redirect the library's calls to the outside: every such call becomes a scheduling point"
    o=subprocess.run(['nm','-u',obj],capture_output=True,text=True).stdout
    und=[l.split()[-1].split('@')[0] for l in o.splitlines() if l.strip()]
    out=[]; tr=set()
    for s in und:
        if s in ('malloc','calloc','realloc','exit','abort') or 'simx_'+s in rtdefs: out.append((s,'simx_'+s)); continue
        if s.startswith(NEVER) or s in rtdefs or s not in libfuncs(): continue
        out.append((s,'simtr_'+s)); tr.add(s)
    m=obj+'.syms'
    open(m,'w').write(''.join(f'{a} {b}\n' for a,b in out))
    rc,t=run(['objcopy','--redefine-syms='+m,'--rename-section','.init_array=sim_init,alloc,load,data',obj])
    if rc: raise RuntimeError('objcopy: '+t)
    return tr
TR='''.text
simtr_common_save:
'''
def tramp(syms,path):
    with open(path,'w') as f:
        f.write('.text\n')
        for s in sorted(syms):
            f.write(f'.globl simtr_{s}\n.type simtr_{s},@function\nsimtr_{s}:\n lea simp_{hashlib.md5(s.encode()).hexdigest()[:16]}(%rip),%r11\n jmp simtr_go\n')
        f.write('''simtr_go:
 push %r11
 push %rax
 push %rdi
 push %rsi
 push %rdx
 push %rcx
 push %r8
 push %r9
 push %r10
 sub $128,%rsp
 movups %xmm0,(%rsp)
 movups %xmm1,16(%rsp)
 movups %xmm2,32(%rsp)
 movups %xmm3,48(%rsp)
 movups %xmm4,64(%rsp)
 movups %xmm5,80(%rsp)
 movups %xmm6,96(%rsp)
 movups %xmm7,112(%rsp)
 mov 200(%rsp),%rdi
 mov 192(%rsp),%rsi
 call sim_ext
 movups (%rsp),%xmm0
 movups 16(%rsp),%xmm1
 movups 32(%rsp),%xmm2
 movups 48(%rsp),%xmm3
 movups 64(%rsp),%xmm4
 movups 80(%rsp),%xmm5
 movups 96(%rsp),%xmm6
 movups 112(%rsp),%xmm7
 add $128,%rsp
 pop %r10
 pop %r9
 pop %r8
 pop %rcx
 pop %rdx
 pop %rsi
 pop %rdi
 pop %rax
 pop %r11
 jmp *(%r11)
.data
.align 8
''')
        for s in sorted(syms): f.write(f'simp_{hashlib.md5(s.encode()).hexdigest()[:16]}: .quad {s}\n')
        f.write('.section .note.GNU-stack,"",@progbits\n')
def build(need=None):
    """Builds the executables in `need` (all of them by default) that are not there yet; returns the directory and what is known of those in `need`."""
    need=list(need or list(VAR)+['c09','c12'])
    k=key(); root=os.environ.get('SIM_BUILD',VERIF+'/build'); d=root+'/'+k; os.makedirs(root,exist_ok=True)
    with open(root+'/lock','w') as lk:
        fcntl.flock(lk,fcntl.LOCK_EX)
        todo=[x for x in need if not os.path.exists(f'{d}/ok-{x}.json')]
        if todo:
            if not os.path.isdir(d):
                old=sorted([x for x in os.listdir(root) if os.path.isdir(root+'/'+x) and x!=k],key=lambda x:os.path.getmtime(root+'/'+x))
                for x in old[:-1]: shutil.rmtree(root+'/'+x,ignore_errors=True)
            os.makedirs(d,exist_ok=True); t0=time.time(); got=compile_(d,todo)
            for x in todo: got[x]['seconds']=round(time.time()-t0,1); json.dump(got[x],open(f'{d}/ok-{x}.json','w'))
        info={'exe':[],'failed':[],'errors':{},'seconds':0}
        for x in need:
            g=json.load(open(f'{d}/ok-{x}.json')); info['failed']+=g['failed']; info['errors'].update(g['errors']); info['seconds']=max(info['seconds'],g['seconds'])
            if g['built']: info['exe'].append(x)
        return d,info
def compile_(d,todo):
        vs=[v for v in VAR if v in todo]; jobs=[]
        for v in vs:
            for c in CAT:
                jobs.append((v,c,['g++']+BASE+VAR[v]+EXTRA.get(c,[])+[f'{SIM}/cat_{c}.cpp','-o',f'{d}/{v}_{c}.o']))
        H=['g++','-std=gnu++17','-O2','-fno-pie','-w','-I'+SIM,'-c']
        for v in vs: jobs.append((v,'rt',H+([] if v=='simt' else ['-DPLAIN'])+(['-DASANRT'] if v=='sima' else [])+[SIM+'/rt.cpp','-o',f'{d}/{v}_rt.o']))
        if vs: jobs.append(('main','main',H+[SIM+'/main.cpp','-o',d+'/main.o']))
        for x in ('c09','c12'):
            if x in todo: jobs.append((x,x,['g++','-std=gnu++11','-O1','-DTHLS_FW_UINT_ON_MASKED_UINT=1','-I'+REPO+'/include','-I'+SIM,'-w',f'{SIM}/{x}.cpp','-o',f'{d}/{x}','-lmpfr','-lgmp','-lpthread']))
        jobs.sort(key=lambda j:-['pol','fp1','fp2','fp3','fp5','fp6','fp7','mpfr'].count(j[1]))
        fails={}
        with ThreadPoolExecutor(8) as ex:
            for j,(rc,t) in zip(jobs,ex.map(lambda j:run(j[2]),jobs)):
                if rc: fails[(j[0],j[1])]=t
        got={x:{'built':False,'failed':[f'{a}/{b}' for a,b in fails if a in (x,'main')],'errors':{f'{a}/{b}':t[-1500:] for (a,b),t in fails.items() if a in (x,'main')}} for x in todo}
        for x in ('c09','c12'):
            if x in todo: got[x]['built']=(x,x) not in fails and os.path.exists(f'{d}/{x}')
        for v in vs:
            info=got[v]
            if (v,'rt') in fails or ('main','main') in fails: continue
            rt=f'{d}/{v}_rt.o'; defs=set(l.split()[-1] for l in subprocess.run(['nm','--defined-only',rt],capture_output=True,text=True).stdout.splitlines() if l.strip())
            tr=set(); objs=[]
            for c in CAT:
                if (v,c) in fails: continue
                o=f'{d}/{v}_{c}.o'; tr|=retarget(o,defs,v); objs.append(o)
            tramp(tr,f'{d}/{v}_tramp.S'); rc,t=run(['g++','-c',f'{d}/{v}_tramp.S','-o',f'{d}/{v}_tramp.o'])
            if rc: info['errors'][v+'/tramp']=t; continue
            rc,t=run(['g++','-no-pie','-o',f'{d}/{v}',d+'/main.o',rt]+objs+[f'{d}/{v}_tramp.o','-lmpfr','-lgmp','-lpthread','-ldl'])
            if rc: info['errors'][v+'/link']=t[-3000:]; info['failed'].append(v+'/link'); continue
            info['built']=True
            open(f'{d}/{v}.sym','w').write(subprocess.run(['nm','-C','-n','-l','--defined-only',f'{d}/{v}'],capture_output=True,text=True).stdout)
            own=set(l[19:] for f in (rt,d+'/main.o') for l in subprocess.run(['nm','-C','--defined-only',f],capture_output=True,text=True).stdout.splitlines())
            with open(f'{d}/{v}.data','w') as g: # the library's variables
                for l in subprocess.run(['nm','-S','-C','--defined-only',f'{d}/{v}'],capture_output=True,text=True).stdout.splitlines():
                    a=l.split(' ',3)
                    if len(a)==4 and a[2] in 'bBdDuVv' and a[3] not in own and not a[3].startswith(('vtable','typeinfo','VTT','guard variable','construction vtable','std::','DW.ref','_')): g.write(f'{a[0]} {a[1]} {a[3]}\n')
            if v=='sima': # what lies directly behind the library's variables and belongs to no other: not alive
                addr=sorted({int(l.split()[0],16) for l in subprocess.run(['nm','--defined-only',f'{d}/{v}'],capture_output=True,text=True).stdout.splitlines() if l[:1] in '0123456789abcdef'})
                import bisect
                with open(f'{d}/{v}.gaps','w') as g:
                    for l in open(f'{d}/{v}.data'):
                        b,n=(int(x,16) for x in l.split()[:2]); i=bisect.bisect_right(addr,b+n-1)
                        if b>=65536 and n and i<len(addr) and addr[i]>b+n: g.write(f'{b+n:x} {min(addr[i]-b-n,64):x}\n')
            for o in objs: os.remove(o)
        return got
if __name__=='__main__':
    d,info=build(sys.argv[1:])
    print(d,'built:',info['exe'],'failed:',info['failed'],info.get('seconds'))
    for k,v in info['errors'].items(): print('--',k,'\n',v[:1500])
    sys.exit(0)
