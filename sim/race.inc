// Data races (C01): the happens-before order of the simulated threads (vector clocks joined by locks, one-time initialisation, atomics and
// fences) over every access of the library's instrumented code, whatever the schedule of the run happens to be. An access to memory that
// another thread accessed (one of the two writing, not both atomic) without being ordered before it is recorded with both calls.
#ifndef PLAIN
namespace {
bool race_on=false, race_off=false;
typedef uint32_t Clk;
struct VC { Clk c[MAXTHR]; void join(const VC &o){ for(int i=0;i<nthr;i++) if(o.c[i]>c[i]) c[i]=o.c[i]; } };
VC vc[MAXTHR], seen_relaxed[MAXTHR], rel_fence[MAXTHR]; bool has_rel_fence[MAXTHR];
struct SyncRec { uintptr_t a; VC v; } syncs[512]; int nsync;
VC *sync_of(uintptr_t a,bool make){ unsigned h=(unsigned)(mix(a)&511); for(int k=0;k<512;k++,h=(h+1)&511){ if(syncs[h].a==a) return &syncs[h].v; if(!syncs[h].a){ if(!make) return 0; if(nsync>400){ race_off=true; return 0; } nsync++; syncs[h].a=a; return &syncs[h].v; } } return 0; }
inline bool race_live(Thr *t){ return race_on&&!race_off&&t; }
void hb_acquire(const void *p){ Thr *t=self; if(!race_live(t)) return; VC *v=sync_of((uintptr_t)p,false); if(v) vc[t->tid].join(*v); }
void hb_release(const void *p){ Thr *t=self; if(!race_live(t)) return; VC *v=sync_of((uintptr_t)p,true); if(v) v->join(vc[t->tid]); vc[t->tid].c[t->tid]++; }
struct Cell { Clk clk; uint8_t tid, mask, fl; int16_t ev; };        // fl: 1 write, 2 atomic
struct Gran { uint32_t a; uint32_t rr; Cell c[6]; };
const unsigned NG=1<<16; Gran *gran; unsigned ngran;
Gran *gran_of(uint32_t g,bool make){ unsigned h=(g*2654435761u)>>16; for(;;h=(h+1)&(NG-1)){ Gran &q=gran[h]; if(q.a==g) return &q; if(!q.a){ if(!make) return 0; if(ngran>NG/2){ race_off=true; return 0; } ngran++; q.a=g; return &q; } } }
void race_forget(const void *p,size_t n){ if(!race_on||race_off||!n||!ngran) return; uintptr_t a=(uintptr_t)p; if(a>>35) return; for(uintptr_t g=a>>3;g<=(a+n-1)>>3;g++){ Gran *q=gran_of((uint32_t)g,false); if(q) memset(q->c,0,sizeof q->c); } }
void race_acc(Thr *t,uintptr_t a,size_t n,int w,int atomic){
  if(race_off||!t->f||(a>>35)||a-(uintptr_t)&std::cerr<sizeof(std::cerr)||a-(uintptr_t)&std::cout<sizeof(std::cout)||a-(uintptr_t)&std::clog<sizeof(std::clog)) return;
  if(n>4096) n=4096; const VC &v=vc[t->tid]; uint8_t fl=(w?1:0)|(atomic?2:0);
  for(uintptr_t e=a+n;a<e;){ uintptr_t g=a>>3, b=(g+1)<<3; if(b>e) b=e; uint8_t mask=(uint8_t)(((1u<<(b-a))-1)<<(a&7)); a=b;
    Gran *q=gran_of((uint32_t)g,true); if(!q) return; int put=-1;
    for(int i=0;i<6;i++){ Cell &c=q->c[i]; if(!c.clk){ if(put<0) put=i; continue; }
      bool old=c.tid==t->tid||c.clk<=v.c[c.tid];
      if(!old&&(c.mask&mask)&&((c.fl|fl)&1)&&!(c.fl&fl&2)&&!S->race){ S->race=1; S->race_ev[0]=c.ev; S->race_ev[1]=t->f->ev; S->race_w[0]=c.fl&1; S->race_w[1]=w; S->race_addr=(uint32_t)(g<<3); tr(0x7ACE); }
      if(old&&(c.mask&~mask)==0&&((fl&1)||!(c.fl&1))&&(put<0||q->c[put].clk)) put=i; }
    if(put<0) put=q->rr++%6; Cell &c=q->c[put]; c.clk=v.c[t->tid]; c.tid=t->tid; c.mask=mask; c.fl=fl; c.ev=(int16_t)t->f->ev; } }
// memory orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
void hb_load(const void *p,int o){ Thr *t=self; if(!race_live(t)) return; if(o!=0&&o!=3) hb_acquire(p); else { VC *v=sync_of((uintptr_t)p,false); if(v) seen_relaxed[t->tid].join(*v); } }
void hb_store(const void *p,int o,bool rmw){ Thr *t=self; if(!race_live(t)) return; bool rel=o>=3; 
  if(rel){ VC *v=sync_of((uintptr_t)p,true); if(v&&!rmw) memset(v,0,sizeof *v); if(v) v->join(vc[t->tid]); vc[t->tid].c[t->tid]++; }
  else { VC *v=sync_of((uintptr_t)p,has_rel_fence[t->tid]); if(v&&!rmw) memset(v,0,sizeof *v); if(v&&has_rel_fence[t->tid]) v->join(rel_fence[t->tid]); } }
void hb_fence(int o){ Thr *t=self; if(!race_live(t)) return; if(o!=0&&o!=3) vc[t->tid].join(seen_relaxed[t->tid]); if(o>=3){ rel_fence[t->tid]=vc[t->tid]; has_rel_fence[t->tid]=true; vc[t->tid].c[t->tid]++; } }
void race_start(){ race_on=true; gran=(Gran*)mmap(0,NG*sizeof(Gran),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(gran==MAP_FAILED) race_on=false; for(int i=0;i<MAXTHR;i++) vc[i].c[i]=1; }
void race_after_all(int i){ for(int k=0;k<nthr;k++) if(thr[k].created&&k!=i) vc[i].join(vc[k]); }  // thread i starts after all that exist have ended
}
#else
namespace { inline void hb_acquire(const void*){} inline void hb_release(const void*){} inline void race_forget(const void*,size_t){} inline void race_start(){} inline void race_after_all(int){} }
#endif
