// Controller: generates plans (schedules, faults, histories) from seeds, has a pristine forked process execute each one under the
// simulator (rt.cpp), judges what came back against the same calls made alone, minimises and writes replay files.
#include "rt.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

typedef std::array<u128,MAXW> Words;
// ------------------------------------------------------------------ operands
static u128 lowmask(int n){ return n>=128? ~(u128)0 : (((u128)1<<n)-1); }
static u128 rbits(Rng &r,int n){ u128 v=((u128)r.next()<<64)|r.next(); return v&lowmask(n); }
static u128 pattern(Rng &r,int n){ // bit patterns with long carries, single bits, ends
  switch(r.below(8)){ case 0: return 0; case 1: return lowmask(n); case 2: return n?(u128)1<<r.below(n):0; case 3: return n?lowmask(n)&~((u128)1<<r.below(n)):0; case 4: return lowmask(n?r.below(n+1):0); case 5: return lowmask(n)&~lowmask(n?r.below(n+1):0); default: return rbits(r,n); } }
static double rdouble(Rng &r){ uint64_t u; switch(r.below(6)){ case 0: u=r.next(); break; case 1: u=(r.next()&0x800fffffffffffffull)|((uint64_t)(1003+r.below(40))<<52); break; case 2: { double d=(double)(int64_t)r.range(-20,20); memcpy(&u,&d,8); break; }
   case 3: u=(r.next()&0x8000000000000000ull)|((uint64_t)(1023-20+r.below(40))<<52); break; case 4: u=(r.next()&0x8000000000000000ull)|(r.next()&0x7f00000000000ull)|((uint64_t)(1010+r.below(26))<<52); break; default: { static const uint64_t k[]={0,0x8000000000000000ull,0x7ff0000000000000ull,0xfff0000000000000ull,0x7ff8000000000000ull,1,0x0010000000000000ull,0x7fefffffffffffffull,0x3ff0000000000000ull,0x380fffffe0000000ull}; u=k[r.below(10)]; } } double d; memcpy(&d,&u,8); return d; }
u128 rand_operand(const Kind &k,Rng &r,int){
  switch(k.k){
  case K_F: case K_P: { int E=k.a,F=k.b; u128 fl=1,sg=k.k==K_P?0:r.below(2),ex,fr; if(k.k==K_P){ fl=r.chance(1,8)?0:1; } else { unsigned c=r.below(16); fl= c==0?0:c==1?2:c==2?3:1; }
    u128 bias=((u128)1<<(E-1))-1, top=((u128)1<<E)-1; switch(r.below(6)){ case 0: ex=rbits(r,E); break; case 1: ex=r.chance(1,2)?r.below(3):top-r.below(3); break; case 2: ex=bias; break; default: { int64_t span=std::min<int64_t>((int64_t)1<<(E-1),2*F+6); int64_t v=(int64_t)bias+r.range(-span/2,span/2); ex=(u128)std::max<int64_t>(0,std::min<int64_t>(v,(int64_t)top)); } }
    if(k.k==K_P){ int64_t v=(int64_t)bias+r.range(-3,2); ex=(u128)v&top; }
    fr=pattern(r,F); if(fl!=1&&!r.chance(1,20)){ ex=0; fr=0; if(fl==3) sg=0; } return fl<<(1+E+F)|sg<<(E+F)|ex<<F|fr; }
  case K_I: { int E=k.a,F=k.b; u128 bias=((u128)1<<(E-1))-1, top=((u128)1<<E)-1, ex; switch(r.below(6)){ case 0: ex=rbits(r,E); break; case 1: ex=r.chance(1,2)?r.below(3):top-r.below(3); break; case 2: ex=bias; break; default: { int64_t v=(int64_t)bias+r.range(-F,F); ex=(u128)std::max<int64_t>(0,std::min<int64_t>(v,(int64_t)top)); } }
    u128 fr=pattern(r,F); if(ex==top&&!r.chance(1,3)) fr=0; return (u128)r.below(2)<<(E+F)|ex<<F|fr; }
  case K_U: return pattern(r,k.a);
  case K_N: return (u128)r.range(k.a,k.b);
  case K_D: { double d=rdouble(r); if(r.chance(1,6)){ uint64_t u=(r.next()&0x8000000000000000ull)|(uint64_t)pattern(r,52)|(r.chance(1,3)?0ull:r.chance(1,2)?0x0010000000000000ull:0x7fe0000000000000ull); return u; } uint64_t u; memcpy(&u,&d,8); return u; }
  case K_S: { float f=(float)rdouble(r); uint32_t u; if(r.chance(1,4)) u=(uint32_t)r.next(); else if(r.chance(1,6)) u=(uint32_t)(r.next()&0x80000000u)|(uint32_t)pattern(r,23)|(r.chance(1,3)?0u:r.chance(1,2)?0x00800000u:0x7f000000u); else memcpy(&u,&f,4); return u; }
  default: return 0; } }
static void gen_text(const Kind &k,u128 *w,Rng &r){ int W=k.a; for(int x=1;x<200;x++) if(x+x/8+12==k.a){ W=x; break; } std::string s; auto bin=[&](int n){ std::string t="0b"; for(int i=0;i<n;i++) t+=r.chance(1,2)?'1':'0'; return t; };
  switch(r.below(10)){ case 0: case 1: case 2: case 3: s=bin(W); break; case 4: s=bin(std::max(0,W+(int)r.range(-2,2))); break; case 5: case 6: case 7: { u128 v=rbits(r,std::min(W,63)); if(r.chance(1,3)) v&=255; s=std::to_string((unsigned long long)v); break; } case 8: s=bin(W); if(s.size()>2) s[r.below(s.size())]=(char)r.range(32,126); break; default: { int n=r.below(6); for(int i=0;i<n;i++) s+=(char)r.range(32,126); } }
  if((int)s.size()>k.a) s.resize(k.a); if(s.size()>250) s.resize(250); int nw=(k.a+15)/16; for(int i=0;i<=nw;i++) w[i]=0; w[0]=s.size(); memcpy(w+1,s.data(),std::min<size_t>(s.size(),nw*16)); }
static void gen_script(u128 *w,Rng &r){ w[0]=r.below(9); w[1]=r.chance(1,2)?r.below(16):(r.next()&0xFFFFFFFFu); w[2]=r.chance(2,3)?0:1+r.below(14); }
static void gen_one(const Kind &k,u128 *w,Rng &r){ if(k.k==K_B) gen_text(k,w,r); else if(k.k==K_G) gen_script(w,r); else w[0]=rand_operand(k,r,0); }
void gen_words(const OpInfo &op,u128 *w,Rng &r){ for(int i=0;i<MAXW;i++) w[i]=0; int p=0; for(auto &k: op.sig){ gen_one(k,w+p,r); p+=k.words(); }
  if(op.sig.size()>1&&r.chance(1,4)){ int a=0; for(size_t i=1,q=op.sig[0].words();i<op.sig.size();q+=op.sig[i].words(),i++){ const Kind &x=op.sig[i],&y=op.sig[0]; if(x.k==y.k&&x.a==y.a&&x.b==y.b&&x.words()==1){ w[q]=w[a]; if((x.k==K_F)&&r.chance(1,2)) w[q]^=(u128)1<<r.below(x.b+2); } } } }
static int fbits(const Kind &k){ switch(k.k){ case K_F: case K_P: return 3+k.a+k.b; case K_I: return 1+k.a+k.b; case K_U: return k.a; case K_D: return 64; case K_S: return 32; default: return 0; } }
void mutate_words(const OpInfo &op,u128 *w,Rng &r){
  if(op.sig.empty()) return; int n=op.sig.size(), i=r.below(n); int p=0; for(int j=0;j<i;j++) p+=op.sig[j].words(); const Kind &k=op.sig[i]; int fb=fbits(k);
  if(k.k==K_B||k.k==K_G||k.k==K_N){ if(k.k==K_B&&r.chance(1,2)&&(int)w[p]>2){ char b[256]; memcpy(b,w+p+1,std::min<int>(240,(k.words()-1)*16)); int q=2+r.below((int)w[p]-2); if(q<240){ b[q]^=1; memcpy(w+p+1,b,std::min<int>(240,(k.words()-1)*16)); } } else if(k.k==K_G&&r.chance(1,2)){ w[p+2]=r.chance(1,2)?0:1+r.below(10); } else gen_one(k,w+p,r); return; }
  if(fb&&n>1&&r.chance(1,10)){ int j=r.below(n),q=0; for(int t=0;t<j;t++) q+=op.sig[t].words(); const Kind &y=op.sig[j]; if(j!=i&&y.k==k.k&&y.a==k.a&&y.b==k.b){ // two operands change by the same amount: what a sum, a difference or an exclusive or of them would not show
      int lim=k.k==K_F||k.k==K_P?k.b:fb; u128 m=lowmask(lim), d=r.chance(1,2)?(u128)1<<r.below(lim?lim:1):rbits(r,lim); switch(r.below(3)){ case 0: w[p]^=d; w[q]^=d; break; case 1: w[p]=(w[p]&~m)|((w[p]+d)&m); w[q]=(w[q]&~m)|((w[q]-d)&m); break; default: w[p]=(w[p]&~m)|((w[p]+d)&m); w[q]=(w[q]&~m)|((w[q]+d)&m); } return; } }
  if(k.k==K_F&&r.chance(1,6)){ int s=k.a+k.b; u128 fl=r.chance(1,2)?((w[p]>>(1+s)&3)==1?(u128)(2+r.below(2)):1):(u128)r.below(4); if(r.chance(1,4)) w[p]^=(u128)1<<s; else w[p]=(w[p]&lowmask(1+s))|fl<<(1+s); return; } // only the class or only the sign: what the other fields hold stays
  switch(r.below(7)){
  case 0: case 1: if(fb){ int lim=(k.k==K_F&&!r.chance(1,6))?k.a+k.b+1:(k.k==K_P)?k.b:fb; w[p]^=(u128)1<<r.below(lim); } break;
  case 2: if(k.k==K_F){ int F=k.b,E=k.a; u128 m= r.chance(1,2)?lowmask(F):lowmask(E)<<F; w[p]=(w[p]&~m)|(rand_operand(k,r,0)&m); } else w[p]=rand_operand(k,r,0); break;
  case 3: { int j=r.below(n); int q=0; for(int t=0;t<j;t++) q+=op.sig[t].words(); const Kind &y=op.sig[j]; if(y.k==k.k&&y.a==k.a&&y.b==k.b&&y.words()==1) std::swap(w[p],w[q]); else w[p]=rand_operand(k,r,0); } break;
  case 4: if(fb&&k.k!=K_P){ int b=1+r.below(4); u128 v=w[p]; u128 d=(u128)r.below(1u<<b); v=r.chance(1,2)?v+d:v-d; u128 m=k.k==K_F?lowmask(k.b):lowmask(fb); w[p]=(w[p]&~m)|(v&m); } break;
  default: w[p]=rand_operand(k,r,0); }
  if(k.k==K_F){ u128 fl=w[p]>>(1+k.a+k.b)&3; if(fl!=1&&!r.chance(1,20)){ u128 sg=fl==3?0:(w[p]>>(k.a+k.b)&1); w[p]=fl<<(1+k.a+k.b)|sg<<(k.a+k.b); } } }

// ------------------------------------------------------------------ zygotes
static Shared *SH; static Flat *FL;
struct Zyg { int to[2],from[2]; pid_t pid; };
static Zyg Z[2];
static void zygote_loop(int which,int in,int out){
  rt_setup(); if(which==0) rt_run_inits();
  for(;;){ char c; ssize_t k=read(in,&c,1); if(k!=1) _exit(0);
    pid_t p=fork(); if(p==0){ close(in); close(out); Plan pl; memcpy(pl.p,FL->p,sizeof pl.p); pl.prop=FL->prop; pl.ev.assign(FL->ev,FL->ev+FL->nev); pl.sw.assign(FL->sw,FL->sw+FL->nsw); rt_exec(pl,SH,FL->opt); }
    int st=0; if(p<0) st=0x7FFF; else while(waitpid(p,&st,0)<0&&errno==EINTR); if(write(out,&st,sizeof st)!=sizeof st) _exit(0); } }
static void start_zygote(int i){ Zyg &z=Z[i]; if(pipe(z.to)||pipe(z.from)) { perror("pipe"); exit(2);} z.pid=fork(); if(z.pid==0){ close(z.to[1]); close(z.from[0]); zygote_loop(i,z.to[0],z.from[1]); } close(z.to[0]); close(z.from[1]); }
struct Outcome { bool ran; int status; bool timeout; std::string crash; };
static void clear_shared(int nev){ Shared *s=SH; s->fatal=0; s->fatal_ev=-1; s->msg[0]=0; s->harness=0; s->trace=0; s->steps=0; s->nsw=s->nint=s->nblock=s->nend=s->nhand=s->race=0; s->nrec=s->nrec2=0; s->steps2=0; for(int i=0;i<nev;i++) memset(&s->r[i],0,offsetof(Res,text)), s->r[i].sl=0, s->r[i].tl=0, memset((char*)&s->r[i]+offsetof(Res,sl),0,sizeof(Res)-offsetof(Res,sl)-sizeof(s->r[i].stext)); memset(&s->second,0,64); }
static long n_exec=0;
static Outcome execute(const Plan &p,const ExecOpt &o){
  n_exec++; clear_shared(p.ev.size()); memcpy(FL->p,p.p,sizeof p.p); snprintf(FL->prop,sizeof FL->prop,"%s",p.prop.c_str()); FL->nev=p.ev.size(); FL->nsw=std::min<size_t>(p.sw.size(),MAXSW); FL->opt=o; std::copy(p.ev.begin(),p.ev.end(),FL->ev); std::copy(p.sw.begin(),p.sw.begin()+FL->nsw,FL->sw);
  Zyg &z=Z[o.init_mode==1]; char c=1; int st=0; Outcome r; r.ran=false; r.timeout=false; r.status=0;
  if(write(z.to[1],&c,1)!=1||read(z.from[0],&st,sizeof st)!=sizeof st){ fprintf(stderr,"zygote lost\n"); exit(2); }
  r.status=st; if(st==0x7FFF||(WIFEXITED(st)&&WEXITSTATUS(st)==99)) return r; r.ran=true;
  if(WIFSIGNALED(st)){ int s=WTERMSIG(st); if(s==SIGPROF||s==SIGALRM||s==SIGKILL){ r.timeout=true; } else r.crash=std::string("signal ")+strsignal(s); } else if(WEXITSTATUS(st)!=0&&SH->fatal==0) r.crash="exit code "+std::to_string(WEXITSTATUS(st));
  return r; }

// ------------------------------------------------------------------ the same call made alone
static std::map<uint32_t,std::pair<uint32_t,std::string>> libsyms; // end address -> (start, name)
static uint32_t lib_symbol(uint32_t a){ auto it=libsyms.upper_bound(a); return it==libsyms.end()||a<it->second.first?(a>0x10000?0u:a):it->second.first; }
struct Rc { int32_t step; bool write; uint32_t addr; };
struct Golden { bool ok=false, runaway=false, loose=false; int status=0; uint64_t h=0,exc=0; uint32_t n=0; bool flagged=false; int64_t steps=0,steps2=0; std::vector<Rc> rec,rec2; std::string text; uint32_t sstate=0; uint64_t outcome=0; std::string why; };
struct KeyHash { size_t operator()(const std::pair<uint64_t,uint64_t>&k) const { return k.first; } };
static std::unordered_map<std::pair<uint64_t,uint64_t>,Golden,KeyHash> gcache; static long n_gold=0,n_goldbad=0;
static void init_event(Event &e){ memset(&e,0,sizeof e); e.parent=-1; }
static std::pair<uint64_t,uint64_t> gkey(int op,const u128 *w){ uint64_t a=op*7919+1,b=op; for(int i=0;i<g_ops[op].words;i++){ a=mix(a^(uint64_t)w[i]); a=mix(a^(uint64_t)(w[i]>>64)); b=mix(b+(uint64_t)(w[i]>>64)*3)^mix((uint64_t)w[i]+i); } return std::make_pair(a,b); }
// Expected results of several calls of one operation computed in one undisturbed process: only a screen. Whatever it flags is judged
// again with g_strict set, that is, against each call made in a process of its own.
// a call that dies of a bad memory access even when made alone
static bool wild_death(const Golden &g){ return !g.ok&&(g.why.find("Segmentation")!=std::string::npos||g.why.find("Bus error")!=std::string::npos||g.why.find("memory not alive")!=std::string::npos); }
static std::vector<std::pair<int,Words>> wild;
static bool g_strict=false; static long n_screen=0; static const Golden &golden(int op,const u128 *w);
static std::unordered_map<int,Golden> proto; // a strict reference of the operation: where its calls touch shared memory, roughly
static void golden_batch(int op,const std::vector<Words> &ws){
  if(g_instrumented&&!proto.count(op)&&!ws.empty()) for(size_t i=0;i<ws.size()&&i<3&&!proto.count(op);i++) golden(op,ws[i].data());
  Plan p; std::set<std::pair<uint64_t,uint64_t>> seen; for(auto &w: ws){ auto k=gkey(op,w.data()); if(gcache.count(k)||!seen.insert(k).second) continue; Event e; init_event(e); e.id=p.ev.size(); e.op=op; memcpy(e.w,w.data(),sizeof e.w); p.ev.push_back(e); }
  if(p.ev.size()<2) return; ExecOpt o; o.golden=true; o.batch=true; Outcome r=execute(p,o); n_screen++; if(!r.ran||r.timeout) return;
  for(auto &e: p.ev){ const Res &R=SH->r[e.id]; if(R.status<=0||R.status==ST_STARTED) continue; Golden g; g.ok=true; g.loose=true; g.status=R.status; g.h=R.h; g.n=R.n; g.exc=R.exc; g.flagged=R.flagged; g.steps=R.steps; g.sstate=R.sstate; { auto q=proto.find(op); if(q!=proto.end()){ const Golden &h=q->second; g.rec=h.rec; g.rec2=h.rec2; g.steps2=h.steps2; if(e.id>0&&h.steps>h.steps2&&h.steps2>0&&!h.rec.empty()) g.steps=std::max(g.steps,h.steps); } } if(g_ops[op].flags&F_STREAM) g.text.assign(R.stext,std::min<uint32_t>(R.sl,sizeof R.stext)); g.outcome=outcome_hash(R.h,R.n,R.status,R.exc,R.stext,R.sl); gcache[gkey(op,e.w)]=g; } }
static const Golden &golden(int op,const u128 *w){
  auto k=gkey(op,w); auto it=gcache.find(k); if(it!=gcache.end()&&!(g_strict&&it->second.loose)) return it->second; if(gcache.size()>40000) gcache.clear();
  Plan p; Event e; init_event(e); e.op=op; memcpy(e.w,w,sizeof e.w); p.ev.push_back(e); ExecOpt o; o.golden=true; o.twice=g_instrumented&&!(g_ops[op].flags&F_SLOW); Outcome r=execute(p,o); n_gold++; Golden g;
  const Res &R=SH->r[0]; if(!r.ran||r.timeout||!r.crash.empty()||SH->fatal||R.status<=0||R.status==ST_STARTED){ g.ok=false; g.why=r.timeout?"timeout":!r.crash.empty()?r.crash:SH->fatal?SH->msg:"did not run"; n_goldbad++; if(wild_death(g)&&wild.size()<100){ Words x; memcpy(x.data(),w,sizeof(u128)*MAXW); wild.push_back({op,x}); } }
  else { g.ok=true; g.status=R.status; g.h=R.h; g.n=R.n; g.exc=R.exc; g.flagged=R.flagged; g.steps=R.steps; g.steps2=SH->steps2; g.sstate=R.sstate; if(g_ops[op].flags&F_STREAM) g.text.assign(R.stext,std::min<uint32_t>(R.sl,sizeof R.stext)); g.outcome=outcome_hash(R.h,R.n,R.status,R.exc,R.stext,R.sl);
    for(int i=0;i<SH->nrec;i++){ const Rec &c=SH->rec[i]; if(c.kind==0||c.kind==3){ g.rec.push_back(Rc{c.step,c.write!=0,c.addr}); if(g.rec.size()>=240) break; } } for(int i=0;i<SH->nrec2;i++){ const Rec &c=SH->rec2[i]; if(c.kind==0||c.kind==3){ g.rec2.push_back(Rc{c.step,c.write!=0,c.addr}); if(g.rec2.size()>=240) break; } }
    if(g_instrumented&&(!proto.count(op)||n_gold%16==0)) proto[op]=g; }
  return gcache[k]=g; }

// ------------------------------------------------------------------ verdicts
struct Verdict { bool bad=false; std::string kind; int ev=-1; std::string detail; };
static std::string hex(u128 v){ char b[40]; if(v>>64) snprintf(b,40,"%llx%016llx",(unsigned long long)(v>>64),(unsigned long long)v); else snprintf(b,40,"%llx",(unsigned long long)v); return b; }
static Verdict V(const char *k,int ev,const std::string &d){ Verdict v; v.bad=true; v.kind=k; v.ev=ev; v.detail=d; return v; }
static std::string evname(const Plan &p,int i){ const Event &e=p.ev[i]; std::string s="call "+std::to_string(i)+" "+g_ops[e.op].name+"("; for(int j=0;j<g_ops[e.op].words;j++) s+=(j?",":"")+hex(e.w[j]); return s+")"; }
static std::string outs(int st,const uint64_t *w,uint32_t n){ static const char *nm[]={"not run","returned","threw a std::exception","threw std::bad_alloc","threw the generator's/stream's exception","threw an unknown exception","did not finish","threw ios_base::failure"}; std::string s=nm[st&7]; (void)w; (void)n; return s; }
static Verdict cmp_value(const Plan &p,int i,const Golden &g){ const Res &R=SH->r[i]; if(R.status!=g.status) return V("status",i,evname(p,i)+" "+outs(R.status,0,0)+"; alone it "+outs(g.status,0,0));
  if(R.h!=g.h||R.n!=g.n) return V("value",i,evname(p,i)+" produced a different result than when called alone"); if(R.status==ST_STDEXC&&R.exc!=g.exc) return V("exception",i,evname(p,i)+" threw a different exception than when called alone"); return Verdict(); }
// known findings: "known: property=Cxx kind=<kind> file=<source file of the acquiring function> [on=throw|report]" or "... op=<operation name prefix>"
struct KnownF { std::string prop,kind,file,op,on; };
static std::vector<KnownF> known; static std::set<std::string> known_hit;
static std::string function_at(uint64_t pc,std::string *file=0){ // name of the library function an address lies in, without template arguments and parameters
  static std::vector<std::pair<uint64_t,std::string>> syms; static bool loaded=false; if(!loaded){ loaded=true; char b[4000]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-8); if(n>0){ b[n]=0; std::ifstream f(std::string(b)+".sym"); std::string ln; while(std::getline(f,ln)) if(ln.size()>19&&strchr("tTwWVv",ln[17])) syms.push_back({strtoull(ln.c_str(),0,16),ln.substr(19)}); } }
  auto it=std::upper_bound(syms.begin(),syms.end(),std::make_pair(pc,std::string("\x7f"))); if(it==syms.begin()) return "?"; std::string s=(it-1)->second,o; { size_t t=s.find('\t'); if(t!=std::string::npos){ std::string fl=s.substr(t+1); s.resize(t); size_t c=fl.rfind(':'),b=fl.rfind('/',c); if(file) *file=fl.substr(b==std::string::npos?0:b+1,c-(b==std::string::npos?0:b+1)); } } for(size_t q;(q=s.find("(anonymous namespace)"))!=std::string::npos;) s.replace(q,21,"{anon}");
  int d=0; for(char c: s){ if(c=='<') d++; else if(c=='>') d--; else if(!d){ if(c=='(') break; o+=c; } } size_t q=o.rfind(' '); return q==std::string::npos?o:o.substr(q+1); }
static bool is_known(const Plan &p,const Verdict &v){ if(!v.bad) return false; std::string on=v.ev>=0&&v.ev<(int)p.ev.size()?g_ops[p.ev[v.ev].op].name:""; for(auto &k: known) if(k.prop==p.prop&&k.kind==v.kind&&!k.op.empty()&&on.compare(0,k.op.size(),k.op)==0){ known_hit.insert("kind="+v.kind+" op="+k.op); return true; } return false; }
// the functions that acquired blocks which the event kept, without those listed as known
static std::string leak_sites(const Plan &p,const Res &R){ std::string o; std::set<std::string> seen; for(int i=0;i<R.ngsite;i++){ std::string fl,f=function_at(R.gsite[i],&fl); bool k=false; for(auto &q: known) if(q.prop==p.prop&&q.kind=="gmp_leak"&&!q.file.empty()&&q.file==fl&&(q.on.empty()||(q.on=="throw"&&R.status!=ST_OK)||(q.on=="report"&&R.reported))){ k=true; known_hit.insert("kind=gmp_leak file="+fl+" (in "+f+")"); } if(!k&&seen.insert(f).second) o+=(o.empty()?"":", ")+f; } return o; }
static Verdict judge_event(const Plan &p,int i){
  const std::string &P=p.prop; const Event &e=p.ev[i]; const OpInfo &op=g_ops[e.op]; const Golden &g=golden(e.op,e.w); (void)op;
  const Res &R=SH->r[i]; const int64_t *a=e.a; Verdict v;
  if(!g.ok) return v;
  if(R.status<=0) return v;  // not reached: reported through the run's own outcome
  if((P=="C01"||P=="C02"||P=="C10")&&(R.gerr&64)) return V("wild",i,evname(p,i)+": a GMP/MPFR block that had been given back was written to");
  if(P=="C01"||P=="C03"||P=="C10"){ return cmp_value(p,i,g); }
  if(P=="C02"){ if(a[A_FAILK]||a[A_SFAULT]||a[A_CFAULT]) return v; if(R.flagged&&!(op.flags&F_RNG)) return op.flags&F_SLOT||(op.name.find("alias.")!=0&&op.name.find("_assign<")==std::string::npos)?V("held",i,evname(p,i)+": a table entry the library had handed out was changed by a later lookup"):V("alias",i,evname(p,i)+": gave other bits when one object was passed for two operands or received the result over an operand"); return cmp_value(p,i,g); }
  if(P=="C04"){ if(R.envdiff){ char b[128]; snprintf(b,128," changed the floating-point environment: control %#x -> %#x",R.env0,R.env1); return V("environment",i,evname(p,i)+b); } if(!(op.flags&F_NOENV)) return cmp_value(p,i,g); return v; }
  if(P=="C05"){ if(R.mpdiff){ std::string s=" did not restore MPFR's"; if(R.mpdiff&1) s+=" emin"; if(R.mpdiff&2) s+=" emax"; if(R.mpdiff&4) s+=" default precision"; if(R.mpdiff&8) s+=" default rounding mode"; return V("settings",i,evname(p,i)+s); } if(a[A_RANGE]==4||a[A_RANGE]==5) return v; return cmp_value(p,i,g); }
  if(P=="C06"){ if(R.gerr){ std::string s; if(R.gerr&1) s+=" a block GMP never handed out was given back;"; if(R.gerr&2) s+=" a block was given back twice;"; if(R.gerr&4) s+=" a block was given back with the wrong size;"; if(R.gerr&16) s+=" a block the host heap never handed out was given to free() or delete;"; if(R.gerr&32) s+=" a host block was freed twice;"; if(R.gerr&64) s+=" a block that had been given back was written to;"; if(R.gerr&8) s+=" a block went back to other memory functions than it came from;"; return V("gmp_protocol",i,evname(p,i)+s); }
    if(R.gleak>0){ std::string f=leak_sites(p,R); if(!f.empty()||!R.ngsite) return V("gmp_leak",i,evname(p,i)+" kept "+std::to_string(R.gleak)+" GMP/MPFR block(s), acquired in "+f); } if(R.hgrow>0) return V("heap_leak",i,evname(p,i)+" after "+std::to_string(a[A_BURST])+" calls held "+std::to_string(R.hgrow)+" heap bytes, growing throughout"); if(a[A_TRIPLE]&&R.hleak>0&&R.hleak2>0) return V("heap_leak",i,evname(p,i)+" kept "+std::to_string(R.hleak)+" heap bytes per call"); return v; }
  if(P=="C07"){
    if(op.flags&F_SYN){ if(R.hcalls||R.newcalls) return V("allocates",i,evname(p,i)+" used the heap ("+std::to_string(R.hcalls)+" allocations, "+std::to_string(R.newcalls)+" attempts)"); return cmp_value(p,i,g); }
    if(R.argdiff) return V("arguments",i,evname(p,i)+" changed its arguments"); 
    if(!(R.status==ST_BADALLOC&&R.fails>0)){ Verdict c=cmp_value(p,i,g); if(c.bad) return c; if(op.flags&F_STREAM){ std::string t(R.stext,std::min<uint32_t>(R.sl,sizeof R.stext)); if(t!=g.text&&!(R.fails>0&&(R.sstate&5)&&g.text.compare(0,t.size(),t)==0)) return V("text",i,evname(p,i)+" wrote other text than when called alone"); } }
    if(R.gerr) return V("gmp_protocol",i,evname(p,i)+" misused GMP's memory functions after an allocation failed"); if(R.gleak>0){ std::string f=leak_sites(p,R); if(!f.empty()||!R.ngsite) return V("gmp_leak",i,evname(p,i)+" kept GMP/MPFR blocks after an allocation failed, acquired in "+f); }
    if(a[A_TRIPLE]){ if(R.again!=g.outcome) return V("next_call",i,evname(p,i)+" gave another result on the next call, after an allocation had failed"); if(R.hleak>0&&R.hleak2>0) return V("heap_leak",i,evname(p,i)+" leaked heap memory when an allocation failed"); }
    return v; }
  if(P=="C08"){ if(R.flagged){ return V("oracle",i,evname(p,i)+": a disabled class was produced, an exception of the generator was swallowed, the old value was lost, or the source had become different from a fresh one"); } return cmp_value(p,i,g); }
  if(P=="C11"){
    if(R.fmtdiff) return V("format_state",i,evname(p,i)+" changed the formatting state, the exception mask, the buffer or the tie of a stream, or cleared its error state (mask "+std::to_string(R.fmtdiff)+")");
    if(a[A_SPRE]){ if(R.status==ST_OK){ Verdict c=cmp_value(p,i,g); if(c.bad) return c; } else if(R.status!=g.status&&!(R.status==ST_IOFAIL&&a[A_SEXC])) return V("status",i,evname(p,i)+" "+outs(R.status,0,0)+" because its stream had failed before");
      if(R.sl) return V("text",i,evname(p,i)+" wrote to a stream that had failed before"); uint32_t pre=a[A_SPRE]==1?4u:a[A_SPRE]==3?2u:1u; if((R.sstate&pre)!=pre) return V("silent",i,evname(p,i)+" cleared the error state its stream was in before the call"); return v; }
    bool faulty=a[A_SFAULT]||a[A_CFAULT];
    if(!faulty){ Verdict c=cmp_value(p,i,g); if(c.bad) return c; } else if(R.status==ST_OK){ Verdict c=cmp_value(p,i,g); if(c.bad) return c; }
    else if(R.status!=g.status){ bool visible=(a[A_SFAULT]&&(a[A_SEXC]||a[A_SFAULT]>=2))||(a[A_CFAULT]&&(a[A_CEXC]||a[A_CFAULT]>=2)); if(!visible||(R.status!=ST_IOFAIL&&R.status!=ST_SIMTHROW&&R.status!=ST_BADALLOC)) return V("status",i,evname(p,i)+" "+outs(R.status,0,0)+" although its stream reports failures through its state only"); }
    if(op.flags&F_STREAM){ std::string t(R.stext,std::min<uint32_t>(R.sl,sizeof R.stext));
      if(!a[A_SFAULT]){ if(t!=g.text&&!(a[A_CFAULT]&&R.status!=ST_OK)) return V("text",i,evname(p,i)+" wrote \""+t.substr(0,200)+"\", expected \""+g.text.substr(0,200)+"\""); if(R.sstate!=g.sstate&&R.status==ST_OK) return V("stream_state",i,evname(p,i)+" left the stream in state "+std::to_string(R.sstate)); }
      else { if(g.text.compare(0,t.size(),t)!=0) return V("text",i,evname(p,i)+" wrote \""+t.substr(0,200)+"\", which is no prefix of \""+g.text.substr(0,200)+"\""); if(t.size()<g.text.size()&&!(R.sstate&5)&&R.status==ST_OK) return V("silent",i,evname(p,i)+" lost output without the stream showing a failure"); } }
    return v; }
  return v; }
static Shared *SAVE;
static Verdict judge_run(const Plan &p,const Outcome &o){
  if(!o.ran||o.timeout||SH->harness) return Verdict();
  size_t sz=offsetof(Shared,r)+sizeof(Res)*p.ev.size(); memcpy(SAVE,SH,sz);
  if(p.prop=="C02") for(auto &e: p.ev) if(wild_death(golden(e.op,e.w))) return V("wild",e.id,evname(p,e.id)+" accessed memory that is not alive, even when called alone: "+golden(e.op,e.w).why);
  for(auto &e: p.ev) if(!golden(e.op,e.w).ok) return Verdict();   // the call does not even work alone: not a case for this property
  for(auto &e: p.ev) golden(e.op,e.w);
  memcpy(SH,SAVE,sz);
  if(SH->fatal||!o.crash.empty()){ int e=SH->fatal_ev; if(e<0) for(size_t i=0;i<p.ev.size();i++) if(SH->r[i].status==ST_STARTED) e=i; 
    std::string d= SH->fatal?SH->msg:o.crash; const char *k= SH->fatal==FT_DEADLOCK?"deadlock":SH->fatal==FT_RUNAWAY?"runaway":SH->fatal==FT_ASSERT?"assertion":SH->fatal==FT_DEAD?"wild":"crash"; return V(k,e,(e>=0?evname(p,e)+": ":"")+d); }
  for(size_t i=0;i<p.ev.size();i++){ Verdict v=judge_event(p,i); if(v.bad&&!is_known(p,v)) return v; }
  if(p.prop=="C01"&&SH->race){ uint32_t y=lib_symbol(SH->race_addr); char b[80]; snprintf(b,80,"%#x",SH->race_addr); std::string nm=std::string("memory at ")+b; if(y) for(auto &q: libsyms) if(q.second.first==y) nm=q.second.second.substr(q.second.second.find_first_not_of(" ")); int e=SH->race_ev[1],f=SH->race_ev[0]; return V("race",e,evname(p,e)+(SH->race_w[1]?" writes ":" reads ")+nm+" while "+evname(p,f)+(SH->race_w[0]?" writes":" reads")+" it: nothing orders the two accesses"); }
  return Verdict(); }
static ExecOpt opts(const Plan &p){ ExecOpt o; if(p.prop=="C10") o.init_mode=1; return o; }
static Verdict run_and_judge(const Plan &p,uint64_t *trace=0,Outcome *oo=0){ for(auto &e: p.ev) golden(e.op,e.w); Outcome o=execute(p,opts(p)); if(trace) *trace=SH->trace^mix(SH->fatal+o.status); if(oo) *oo=o; return judge_run(p,o); }
// the same plan with the property's own dimension switched off; if it still fails, the failure belongs to another property
static int kind_class(const std::string &k){ return k=="value"||k=="status"||k=="exception"||k=="text"||k=="next_call"?1:k=="crash"||k=="assertion"||k=="deadlock"||k=="runaway"||k=="wild"?2:k=="gmp_leak"||k=="heap_leak"?3:4; }
static bool neutral_fails(const Plan &p0,const Verdict &v0){
  Plan p=p0; std::vector<int> at; const std::string &P=p.prop;
  if(P=="C04") at={A_MXCSR,A_X87}; else if(P=="C05") at={A_PREC,A_RND,A_RANGE,A_MPFLAGS}; else if(P=="C11") at={A_FMT,A_FILL,A_SPREC,A_LOC,A_SFAULT,A_SPOS,A_SEXC,A_CFAULT,A_CPOS,A_CEXC,A_GLOC,A_DEBUG,A_SPRE}; else if(P=="C10") at={A_PHASE}; else if(P=="C07") at={A_FAILK,A_FAILMODE};
  else if(P=="C03"){ std::vector<Event> ev; // interrupters first, then the interrupted
    for(auto &e: p.ev) if(e.parent>=0) ev.push_back(e); for(auto &e: p.ev) if(e.parent<0) ev.push_back(e); for(size_t i=0;i<ev.size();i++){ ev[i].id=i; ev[i].parent=-1; } p.ev=ev; }
  else return false;
  for(auto &e: p.ev) for(int k: at) e.a[k]=0; if(P=="C10") p.p[P_ORDER]=0;
  Verdict v=run_and_judge(p); if(!v.bad||kind_class(v.kind)!=kind_class(v0.kind)) return false; if(P=="C04"&&v.kind=="environment") return false; if(P=="C05"&&v.kind=="settings") return false; if(P=="C07"&&v.kind=="allocates") return false; if(P=="C11"&&(v.kind=="format_state")) return false; return true; }

// ------------------------------------------------------------------ plan files
static std::string plan_text(const Plan &p,const Verdict &v,uint64_t trace,const char *exe){
  std::ostringstream o; o<<"# replay with: "<<exe<<" replay <this file>\nprop "<<p.prop<<"\n"; for(int i=0;i<P_N;i++) if(p.p[i]) o<<"par "<<par_name[i]<<" "<<p.p[i]<<"\n";
  for(auto &e: p.ev){ o<<"ev "<<e.id<<" "<<g_ops[e.op].name<<" tid="<<e.tid; if(e.parent>=0) o<<" in="<<e.parent<<" at="<<e.pstep; for(int i=0;i<A_N;i++) if(e.a[i]) o<<" "<<attr_name[i]<<"="<<e.a[i]; o<<" w="; for(int i=0;i<g_ops[e.op].words;i++) o<<(i?",":"")<<hex(e.w[i]); o<<"\n"; }
  for(auto &s: p.sw) o<<"sw "<<s.ev<<" "<<s.step<<" "<<s.next<<"\n";
  o<<"expect "<<v.kind<<" "<<v.ev<<"\ntrace "<<std::hex<<trace<<std::dec<<"\n# "<<v.detail<<"\n"; return o.str(); }
static bool plan_parse(const std::string &file,Plan &p,std::string &kind,uint64_t &trace){
  std::ifstream f(file); if(!f) return false; std::string ln; std::map<std::string,int> byname; for(size_t i=0;i<g_ops.size();i++) byname[g_ops[i].name]=i; trace=0;
  while(std::getline(f,ln)){ if(ln.empty()||ln[0]=='#') continue; std::istringstream s(ln); std::string k; s>>k; if(k=="prop") s>>p.prop; else if(k=="par"){ std::string n; int64_t v; s>>n>>v; for(int i=0;i<P_N;i++) if(n==par_name[i]) p.p[i]=v; }
    else if(k=="ev"){ Event e; init_event(e); std::string n,t; s>>e.id>>n; if(!byname.count(n)){ fprintf(stderr,"unknown operation %s\n",n.c_str()); return false; } e.op=byname[n]; while(s>>t){ size_t q=t.find('='); std::string a=t.substr(0,q),b=t.substr(q+1); if(a=="tid") e.tid=atoi(b.c_str()); else if(a=="in") e.parent=atoi(b.c_str()); else if(a=="at") e.pstep=atoll(b.c_str()); else if(a=="w"){ std::istringstream w(b); std::string x; int i=0; while(std::getline(w,x,',')&&i<MAXW){ u128 v=0; for(char c: x) v=v*16+(c<='9'?c-'0':c-'a'+10); e.w[i++]=v; } } else for(int i=0;i<A_N;i++) if(a==attr_name[i]) e.a[i]=atoll(b.c_str()); } p.ev.push_back(e); }
    else if(k=="sw"){ Sw w; s>>w.ev>>w.step>>w.next; p.sw.push_back(w); } else if(k=="expect") s>>kind; else if(k=="trace") s>>std::hex>>trace>>std::dec; }
  return p.ev.size()<=MAXEV; }

// ------------------------------------------------------------------ minimisation
static double now(){ timespec t; syscall(SYS_clock_gettime,CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void drop_events(Plan &p,const std::vector<char> &del0){ std::vector<char> del=del0; bool ch=true; while(ch){ ch=false; for(size_t i=0;i<p.ev.size();i++) if(!del[i]&&p.ev[i].parent>=0&&del[p.ev[i].parent]){ del[i]=1; ch=true; } }
  std::vector<int> map(p.ev.size(),-1); std::vector<Event> ev; for(size_t i=0;i<p.ev.size();i++) if(!del[i]){ map[i]=ev.size(); ev.push_back(p.ev[i]); } for(size_t i=0;i<ev.size();i++){ ev[i].id=i; if(ev[i].parent>=0) ev[i].parent=map[ev[i].parent]; } std::vector<Sw> sw; for(auto &s: p.sw) if(map[s.ev]>=0){ s.ev=map[s.ev]; sw.push_back(s); } p.ev=ev; p.sw=sw; }
static Plan minimise(Plan p,const Verdict &v0,int budget,double tmax){
  double t0=now(); int used=0; auto fails=[&](const Plan &q){ if(used>=budget||now()-t0>tmax) return false; used++; Verdict v=run_and_judge(q); if(!v.bad||v.kind!=v0.kind) return false; return !neutral_fails(q,v0); };
  for(int round=0;round<3;round++){ size_t s0=p.ev.size()+p.sw.size();
    for(size_t ch=std::max<size_t>(1,p.ev.size()/2);;ch/=2){ for(size_t i=0;i<p.ev.size()&&p.ev.size()>1;){ std::vector<char> del(p.ev.size(),0); for(size_t j=i;j<std::min(i+ch,p.ev.size());j++) del[j]=1; Plan q=p; drop_events(q,del); if(!q.ev.empty()&&fails(q)) p=q; else i+=ch; } if(ch<=1) break; }
    for(size_t ch=std::max<size_t>(1,p.sw.size()/2);!p.sw.empty();ch/=2){ for(size_t i=0;i<p.sw.size();){ Plan q=p; q.sw.erase(q.sw.begin()+i,q.sw.begin()+std::min(i+ch,q.sw.size())); if(fails(q)) p=q; else i+=ch; } if(ch<=1) break; }
    for(size_t i=0;i<p.ev.size();i++) for(int k=0;k<A_N;k++) if(p.ev[i].a[k]){ Plan q=p; q.ev[i].a[k]=0; if(fails(q)){ p=q; continue; } if(k==A_BURST){ for(int64_t b=p.ev[i].a[k]/2;b>0;b/=2){ Plan z=p; z.ev[i].a[k]=b; if(fails(z)) p=z; else break; } } if((k==A_SPOS||k==A_CPOS||k==A_FAILK||k==A_FMT)&&p.ev[i].a[k]>1){ Plan z=p; z.ev[i].a[k]=1; if(fails(z)) p=z; } }
    for(int k: {P_LIFE,P_ENV}) if(p.p[k]){ Plan q=p; q.p[k]=0; if(fails(q)) p=q; }
    if(p.ev.size()+p.sw.size()==s0&&round>0) break; }
  return p; }

// ------------------------------------------------------------------ generation
static std::map<std::string,long> ST; // counters for the evidence
static std::unordered_set<uint64_t> traces; static std::set<int> ops_used;
static std::vector<int> usable; static std::vector<int> shared_ops; static std::map<std::string,std::vector<int>> by_sig, by_base; static std::vector<std::string> sigof;
static std::vector<std::vector<Words>> pool;
static std::string base_of(const std::string &n){ size_t q=n.find('<'); return q==std::string::npos?n:n.substr(0,q); }
static std::string sig_str(const OpInfo &o){ std::string s; for(auto &k: o.sig){ char b[32]; snprintf(b,32,"%d:%d:%d ",k.k,k.a,k.b); s+=b; } return s; }
static bool eligible(const std::string &P,int i){ unsigned f=g_ops[i].flags; 
  if(P=="C03") return f&F_SYN; if(P=="C05"||P=="C06") return (f&F_MPFR)||(P=="C06"&&(f&F_HOST)); if(P=="C07") return f&(F_SYN|F_HOST); if(P=="C08") return f&F_RNG; if(P=="C11") return f&(F_STREAM|F_DEBUG|F_PRINTS)||base_of(g_ops[i].name)=="to_string"||base_of(g_ops[i].name)=="str"||base_of(g_ops[i].name)=="ieee_str"; return true; }
static int cost_ok(Rng &r,int op){ return !(g_ops[op].flags&F_SLOW)||r.chance(1,12); }
// operations whose later calls still change variables of the library (none, normally), and who shares those variables
static std::vector<int> hot_ops; static std::map<uint32_t,std::vector<int>> hot_by_addr; static std::map<int,std::vector<uint32_t>> hot_addr;
static void probe_op(int op,Rng &r){
  if(g_ops[op].flags&F_SLOW) return; std::set<uint32_t> ad;
  for(int rep=0,careful=0;rep<2;rep++){ Plan p; Words w; for(int k=0;k<9;k++){ if(k==0||(rep&&r.chance(1,2))) gen_words(g_ops[op],w.data(),r); else if(k>1) mutate_words(g_ops[op],w.data(),r); if(careful&&!golden(op,w.data()).ok) continue; Event e; init_event(e); e.id=p.ev.size(); e.op=op; memcpy(e.w,w.data(),sizeof e.w); p.ev.push_back(e); }
    if(p.ev.size()<4) continue; ExecOpt o; o.golden=true; o.probe=true; Outcome q=execute(p,o); if((!q.ran||!q.crash.empty()||SH->fatal)&&!careful){ careful=1; rep--; continue; }
    for(int i=0;i<SH->nrec;i++){ const Rec &c=SH->rec[i]; if(c.kind==0&&c.write) ad.insert(lib_symbol(c.addr)); } for(int i=0;i<SH->nrec2;i++) if(SH->rec2[i].kind==6) ad.insert(SH->rec2[i].addr); ad.erase(0); }
  for(uint32_t a: ad){ hot_by_addr[a].push_back(op); hot_addr[op].push_back(a); } if(!ad.empty()) hot_ops.push_back(op); }
static int hot_first(Rng &r){ return hot_ops[r.below(hot_ops.size())]; }
static int hot_partner(Rng &r,int op){ auto &a=hot_addr[op]; auto &v=hot_by_addr[a[r.below(a.size())]]; return v[r.below(v.size())]; }
static int pick_op(Rng &r,const std::string &P){ if(!hot_ops.empty()&&r.chance(1,2)) return hot_first(r); for(int t=0;t<50;t++){ int o=usable[r.below(usable.size())]; if(cost_ok(r,o)) return o; } (void)P; return usable[0]; }
static bool g_screen=false; // screening allowed for this property
static bool screened(int op){ return g_screen&&!(g_ops[op].flags&(F_SLOW|F_SLOT))&&!hot_addr.count(op); }
static const Words &pick_words(Rng &r,int op){ auto &pl=pool[op];
  if(screened(op)&&(pl.size()<3||(pl.size()<40&&r.chance(1,6)))){ std::vector<Words> ws(8); for(size_t i=0;i<8;i++){ if(!pl.empty()&&r.chance(1,3)){ ws[i]=pl[r.below(pl.size())]; mutate_words(g_ops[op],ws[i].data(),r); } else gen_words(g_ops[op],ws[i].data(),r); } golden_batch(op,ws); size_t n0=pl.size(); for(auto &w: ws) if(golden(op,w.data()).ok) pl.push_back(w); if(pl.size()>n0) return pl[n0+r.below(pl.size()-n0)]; } if(pl.size()<3||(pl.size()<40&&r.chance(1,6))){ Words w; gen_words(g_ops[op],w.data(),r); if(golden(op,w.data()).ok||pl.empty()) pl.push_back(w); return pl.back(); }
  if(r.chance(1,6)){ Words w=pl[r.below(pl.size())]; int k=1+r.below(2); while(k--) mutate_words(g_ops[op],w.data(),r); if(!golden(op,w.data()).ok) return pl[r.below(pl.size())]; if(pl.size()>=40) pl[r.below(pl.size())]=w; else pl.push_back(w); return pl.back(); }
  return pl[r.below(pl.size())]; }
static Words mutated(Rng &r,int op,const Words &w0){ if(!screened(op)){ Words w=w0; mutate_words(g_ops[op],w.data(),r); if(golden(op,w.data()).ok) return w; return pick_words(r,op); }
  std::vector<Words> ws(5,w0); for(auto &w: ws){ int k=1+r.below(2); while(k--) mutate_words(g_ops[op],w.data(),r); } golden_batch(op,ws); auto &pl=pool[op]; int hit=-1; for(size_t i=0;i<ws.size();i++) if(golden(op,ws[i].data()).ok){ if(hit<0) hit=i; if(pl.size()<60) pl.push_back(ws[i]); else pl[r.below(pl.size())]=ws[i]; } return hit<0?w0:ws[hit]; }
static void set_words(Event &e,const Words &w){ memcpy(e.w,w.data(),sizeof e.w); }
// a small set of related operations: same operands, same operator in other formats, or random
static std::vector<int> focus_ops(Rng &r,const std::string &P,int n,int first){ std::vector<int> f; f.push_back(first); for(int k=1;k<n;k++){ int b=f[r.below(f.size())]; int c=-1; if(hot_addr.count(b)&&r.chance(1,2)){ f.push_back(hot_partner(r,b)); continue; } switch(r.below(4)){ case 0: { auto &v=by_sig[sigof[b]]; c=v[r.below(v.size())]; break; } case 1: { auto &v=by_base[base_of(g_ops[b].name)]; c=v[r.below(v.size())]; break; } case 2: if(!shared_ops.empty()){ c=shared_ops[r.below(shared_ops.size())]; break; } default: c=pick_op(r,P); } if(cost_ok(r,c)) f.push_back(c); else f.push_back(b); } return f; }
static void add_event(Plan &p,int op,const Words &w,int tid){ Event e; init_event(e); e.id=p.ev.size(); e.op=op; e.tid=tid; set_words(e,w); p.ev.push_back(e); }
// operands for the next call: often those of an earlier call of this run, or a neighbour of them
static Words next_words(Rng &r,const Plan &p,int op){ if(!p.ev.empty()&&r.chance(1,2)){ for(int t=0;t<6;t++){ const Event &e=p.ev[r.below(p.ev.size())]; if(sigof[e.op]==sigof[op]){ Words w; memcpy(w.data(),e.w,sizeof e.w); if(r.chance(1,2)) return golden(op,w.data()).ok?w:pick_words(r,op); return mutated(r,op,w); } } }
  if(!p.ev.empty()&&r.chance(1,8)){ const Event &e=p.ev[r.below(p.ev.size())]; auto &s=g_ops[op].sig,&t=g_ops[e.op].sig; if(s.size()==t.size()&&g_ops[op].words==(int)s.size()&&g_ops[e.op].words==(int)t.size()){ Words w; w.fill(0); bool ok=true; for(size_t i=0;i<s.size();i++){ int fb=fbits(s[i]); if(!fb||!fbits(t[i])){ ok=false; break; } w[i]=e.w[i]&lowmask(fb); } if(ok&&golden(op,w.data()).ok) return w; } } // the same bits in another format
  return pick_words(r,op); }
static int64_t plan_steps(const Plan &p){ int64_t s=0; for(auto &e: p.ev) s+=golden(e.op,e.w).steps; return s; }

static Plan gen_C01(Rng &r){ Plan p; p.prop="C01"; bool many=r.chance(1,hot_ops.empty()?20:6); int nt=many?(int)r.range(7,r.chance(1,2)?20:40):r.chance(1,2)?2:(int)r.range(2,6); p.p[P_NTHREADS]=nt; static const int64_t qs[]={3000,50000,400000}; p.p[P_QUANTUM]=qs[r.below(3)];
  int first=  !hot_ops.empty()&&r.chance(3,4)?hot_first(r): (!shared_ops.empty()&&r.chance(3,5))?shared_ops[r.below(shared_ops.size())]:pick_op(r,"C01"); auto f=focus_ops(r,"C01",1+r.below(3),first); bool same_first=r.chance(3,5); int per= r.chance(1,2)?(int)r.range(1,3):(int)r.range(2,10);
  for(int t=0;t<nt;t++){ int n=many||r.chance(1,3)?1:per; for(int k=0;k<n;k++){ int op=(k==0&&(same_first||many))?f[0]:f[r.below(f.size())]; Words w=next_words(r,p,op); add_event(p,op,w,t); } }
  int mode=many?(r.chance(1,2)?2:0):r.below(6); p.p[P_MODE]=mode+1; auto other=[&](int t){ if(many&&r.chance(3,4)) return (t+1)%nt; int n=r.below(nt-1); return n>=t?n+1:n; };
  for(auto &e: p.ev){ const Golden &g=golden(e.op,e.w); if(!g.ok) continue; int64_t st=std::max<int64_t>(1,g.steps); auto add=[&](int64_t s,int n){ if(p.sw.size()<MAXSW-4) p.sw.push_back(Sw{e.id,std::max<int64_t>(1,s),n}); };
    auto &rec=(r.chance(1,2)||g.rec2.empty())?g.rec:g.rec2;
    switch(mode){
    case 0: if(!rec.empty()){ int k=1+r.below(6); while(k--) add(rec[r.below(rec.size())].step+r.range(0,1),other(e.tid)); } else add(1+r.below(st),other(e.tid)); break;
    case 1: { int64_t gap=1+r.below(r.chance(1,2)?20:400); int n=0; for(int64_t s=1+r.below(gap*2);s<=st&&n<60;s+=1+r.below(gap*2),n++) add(s,other(e.tid)); break; }
    case 2: if(many||r.chance(1,3)) add(1+r.below(st),other(e.tid)); break;
    case 3: add(r.chance(1,2)?1:st,other(e.tid)); break;
    case 4: { std::vector<int> wr; for(size_t i=0;i<rec.size();i++) if(rec[i].write) wr.push_back(i); if(!wr.empty()&&r.chance(2,3)){ add(rec[wr[r.below(wr.size())]].step+r.range(0,2),other(e.tid)); } else if(r.chance(1,2)) add(1+r.below(st),other(e.tid)); break; }
    default: { int k=1+r.below(3); while(k--){ int64_t s= rec.empty()||r.chance(1,3)?1+r.below(st):rec[r.below(rec.size())].step; int b=1+r.below(8); for(int j=0;j<b;j++) add(s+j,other(e.tid)); } } } }
  if(r.chance(1,5)){ p.p[P_LIFE]=(r.chance(2,3)?1+r.below(nt-1):nt)+(r.chance(1,3)?100:0); } if(p.p[P_LIFE]&&r.chance(1,2)) for(auto &e: p.ev) if(r.chance(1,3)){ e.a[A_PHASE]=-1-(int64_t)r.below(3); ST["calls_at_thread_end"]++; } if(r.chance(1,5)) p.p[P_ENV]=1+r.below(1000000);
  p.p[P_LIMIT]=plan_steps(p)*30+3000000; return p; }

// a long unrecorded history of the host-side operations (a few hundred to a few thousand calls)
static void host_burst(Rng &r,Plan &p){ int i=r.below(p.ev.size()); Event &e=p.ev[i]; unsigned fl=g_ops[e.op].flags; if(!(fl&(F_MPFR|F_HOST))||(fl&(F_SLOT|F_SLOW|F_PRINTS|F_STREAM))||e.a[A_SFAULT]||e.a[A_CFAULT]||e.a[A_FAILK]) return; const Golden &g=golden(e.op,e.w); int64_t lim=g_instrumented?2000000/std::max<int64_t>(g.steps,100):20000; static const int64_t b[]={17,70,130,270,600,1100,4200,17000}; e.a[A_BURST]=std::min<int64_t>(b[r.below(8)],std::max<int64_t>(lim,20)); ST["host_bursts"]++; }
static Plan gen_C02(Rng &r){ Plan p; p.prop="C02"; p.p[P_NORESTORE]=1; int n=r.chance(1,3)?(int)r.range(2,5):(int)r.range(3,30); int first=  !hot_ops.empty()&&r.chance(3,4)?hot_first(r): (!shared_ops.empty()&&r.chance(2,5))?shared_ops[r.below(shared_ops.size())]:pick_op(r,"C02"); auto f=focus_ops(r,"C02",1+r.below(5),first);
  bool poison=r.chance(2,5), heap=r.chance(1,4), fails=r.chance(1,3), sur=r.chance(1,4), unw=r.chance(1,6); if(r.chance(1,4)) p.p[P_ENV]=1+r.below(1000000); int mixin=r.below(3)?0:(int)r.range(1,4);
  for(int k=0;k<n;k++){ int op=mixin&&r.chance(1,mixin+1)?pick_op(r,"C02"):f[r.below(f.size())]; Words w=next_words(r,p,op); add_event(p,op,w,0); Event &e=p.ev.back(); unsigned fl=g_ops[op].flags; if(poison&&r.chance(1,2)) e.a[A_STACK]=1+r.below(7); if(heap&&r.chance(1,2)) e.a[A_HEAP]=1+r.below(6); if(sur&&r.chance(1,2)){ static const int64_t er[]={ERANGE,EINVAL,EDOM,ENOMEM,EINTR,EAGAIN}; e.a[A_ERRNO]=er[r.below(6)]; } if(unw&&r.chance(1,2)) e.a[A_UNWIND]=1;
    if(fails&&(fl&F_HOST)&&r.chance(1,3)){ e.a[A_FAILK]=1+r.below(4); e.a[A_FAILMODE]=r.below(2); } if(fails&&(fl&F_STREAM)&&r.chance(1,3)){ e.a[A_SFAULT]=1+r.below(3); e.a[A_SPOS]=r.below(20); } }
  if(r.chance(1,10)){ int i=r.below(p.ev.size()); Event &e=p.ev[i]; unsigned fl=g_ops[e.op].flags; if((fl&(F_SYN|F_RNG))&&!(fl&(F_HOST|F_SLOT|F_SLOW))){ const Golden &g=golden(e.op,e.w); int64_t lim= g_instrumented? 4000000/std::max<int64_t>(g.steps,100) : 70000; static const int64_t b[]={17,70,270,1100,5000,70000,300000,1200000}; bool hot=hot_addr.count(e.op); if(hot) lim*=20; e.a[A_BURST]=std::min<int64_t>(b[r.below(hot?8:6)],lim); } }
  if(r.chance(1,20)) host_burst(r,p);
  return p; }

static Plan gen_C03(Rng &r){ Plan p; p.prop="C03"; int n=1+r.below(3); int first= !hot_ops.empty()&&r.chance(3,4)?hot_first(r): (!shared_ops.empty()&&r.chance(1,2))?shared_ops[r.below(shared_ops.size())]:pick_op(r,"C03"); auto f=focus_ops(r,"C03",1+r.below(3),first);
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); } std::vector<int> par; for(int i=0;i<n;i++) par.push_back(i); int m=1+r.below(r.chance(1,3)?14:5); bool deep=r.chance(1,8);
  for(int k=0;k<m;k++){ int q=deep&&r.chance(4,5)?par.back():par[r.below(par.size())]; int depth=0; for(int z=q;p.ev[z].parent>=0;z=p.ev[z].parent) depth++; if(depth>=(deep?9:3)) continue; const Golden &g=golden(p.ev[q].op,p.ev[q].w); if(!g.ok) continue; int op=r.chance(2,3)?f[r.below(f.size())]:pick_op(r,"C03"); if(r.chance(1,3)) op=p.ev[q].op; Words w=next_words(r,p,op); int pid=p.ev[q].tid; add_event(p,op,w,pid); Event &e=p.ev.back(); e.parent=q; bool warm=q>0&&r.chance(1,2)&&g.steps2>0; auto &rec=warm?g.rec2:g.rec; int64_t st=std::max<int64_t>(1,warm?g.steps2:g.steps); e.pstep= (!rec.empty()&&r.chance(1,2))?rec[r.below(rec.size())].step+r.range(0,1):1+r.below(st); if(r.chance(1,12)) e.pstep=0; par.push_back(e.id); }
  p.p[P_LIMIT]=plan_steps(p)*30+3000000; return p; }

static int64_t rmx(Rng &r){ int64_t v=0x1F80; v|=r.below(4)<<13; if(r.chance(1,2)) v|=0x8000; if(r.chance(1,2)) v|=0x40; if(r.chance(1,2)) v|=r.below(64); return v; }
static int64_t rcw(Rng &r){ int64_t v=0x037F; v&=~0xF00; static const int pc[]={0,2,3}; v|=pc[r.below(3)]<<8; v|=r.below(4)<<10; return v; }
static Plan gen_C04(Rng &r){ Plan p; p.prop="C04"; int n=(int)(r.chance(1,2)?r.range(1,12):r.range(12,48)); int first= !hot_ops.empty()&&r.chance(3,4)?hot_first(r): (!shared_ops.empty()&&r.chance(1,2))?shared_ops[r.below(shared_ops.size())]:pick_op(r,"C04"); auto f=focus_ops(r,"C04",1+r.below(5),first);
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); Event &e=p.ev.back(); if(r.chance(4,5)) e.a[A_MXCSR]=rmx(r); if(r.chance(1,3)){ e.a[A_X87]=rcw(r); } if((g_ops[op].flags&F_SYN)&&!(g_ops[op].flags&F_NOENV)&&r.chance(1,3)){ if(!e.a[A_MXCSR]) e.a[A_MXCSR]=0x1F80; e.a[A_MXCSR]&=~(int64_t)((r.chance(1,2)?0x0D:r.below(64)&0x0D)<<7); /*invalid, division by zero, overflow*/ if(r.chance(1,2)){ if(!e.a[A_X87]) e.a[A_X87]=0x037F; e.a[A_X87]&=~(int64_t)(r.below(64)&0x0D); } ST["fault_fp_traps_enabled"]++; } } return p; }
static Plan gen_C05(Rng &r){ Plan p; p.prop="C05"; int n=(int)(r.chance(1,2)?r.range(1,10):r.range(10,32)); auto f=focus_ops(r,"C05",1+r.below(5),pick_op(r,"C05"));
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); Event &e=p.ev.back(); if(r.chance(1,2)){ static const int64_t pr[]={2,1,3,24,53,64,100,113,4096,7}; e.a[A_PREC]=pr[r.below(10)]; if(e.a[A_PREC]<2) e.a[A_PREC]=2; } if(r.chance(1,2)) e.a[A_RND]=1+r.below(5); if(r.chance(1,2)) e.a[A_RANGE]=1+r.below(5); if(r.chance(1,2)) e.a[A_MPFLAGS]=1+r.below(63); } if(r.chance(1,12)) host_burst(r,p); return p; }
static Plan gen_C06(Rng &r){ Plan p; p.prop="C06"; int n=(int)(r.chance(1,2)?r.range(1,6):r.range(6,16)); auto f=focus_ops(r,"C06",1+r.below(4),pick_op(r,"C06"));
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); Event &e=p.ev.back(); e.a[A_TRIPLE]=1; if(r.chance(1,4)) e.a[A_GSET]=1+r.below(2); if(r.chance(1,6)) e.a[A_HEAP]=1+r.below(6); if(r.chance(1,6)) e.a[A_UNWIND]=1; } if(r.chance(1,12)) host_burst(r,p); return p; }
static Plan gen_C07(Rng &r){ Plan p; p.prop="C07"; int n=(int)r.range(1,6); int first=pick_op(r,"C07"); if(r.chance(1,2)) for(int t=0;t<60&&!(g_ops[first].flags&F_HOST);t++) first=pick_op(r,"C07"); auto f=focus_ops(r,"C07",1+r.below(3),first);
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); Event &e=p.ev.back(); if(g_ops[op].flags&F_SYN){ e.a[A_FAILK]=1; e.a[A_FAILMODE]=1; } else { if(r.chance(7,8)){ e.a[A_FAILK]= r.chance(3,4)?1+r.below(6):1+r.below(40); e.a[A_FAILMODE]=r.below(3)==2?2+r.below(1000):r.below(2); } e.a[A_TRIPLE]=1; } if(r.chance(1,8)) e.a[A_UNWIND]=1; } return p; }
static Plan gen_C08(Rng &r){ Plan p; p.prop="C08"; int n=(int)(r.chance(1,2)?r.range(1,12):r.range(12,32)); auto f=focus_ops(r,"C08",1+r.below(3),pick_op(r,"C08")); f.erase(std::remove_if(f.begin(),f.end(),[](int o){return !(g_ops[o].flags&F_RNG);}),f.end()); if(f.empty()) f.push_back(usable[0]);
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); if(r.chance(1,6)) p.ev.back().a[A_STACK]=1+r.below(7); if(r.chance(1,8)) p.ev.back().a[A_UNWIND]=1; if(r.chance(1,8)) p.ev.back().a[A_ERRNO]=ERANGE; } if(r.chance(1,4)) p.p[P_ENV]=1+r.below(1000000);
  if(r.chance(1,3)){ int m=1+r.below(3); for(int k=0;k<m;k++){ int q=r.below(p.ev.size()); if(p.ev[q].parent>=0) continue; int op=r.chance(1,2)?p.ev[q].op:f[r.below(f.size())]; Words w=next_words(r,p,op); add_event(p,op,w,0); Event &e=p.ev.back(); e.parent=q; e.pstep=1+r.below(std::max<int64_t>(1,std::min<int64_t>(golden(p.ev[q].op,p.ev[q].w).steps,60))); if(g_ops[p.ev[q].op].flags&F_SLOT){ p.ev.pop_back(); } } } return p; }
static Plan gen_C10(Rng &r){ Plan p; p.prop="C10"; int n=(int)r.range(1,16); p.p[P_ORDER]=r.chance(1,4)?0:1+r.below(1000000); int ni=rt_ninits(); auto f=focus_ops(r,"C10",1+r.below(6),pick_op(r,"C10")); bool early=r.chance(1,2), late=r.chance(1,2);
  for(int k=0;k<n;k++){ int op=r.chance(1,2)?pick_op(r,"C10"):f[r.below(f.size())]; add_event(p,op,next_words(r,p,op),0); p.ev.back().a[A_PHASE]= late&&r.chance(1,2)?-1-(r.chance(2,3)?r.below(4):r.below(16)):early?1+r.below(2):r.chance(1,8)?0:1+r.below(ni+1); if(p.ev.back().a[A_PHASE]<0) ST["calls_at_exit"]++; }
  return p; }
static Plan gen_C11(Rng &r){ Plan p; p.prop="C11"; int n=(int)(r.chance(1,2)?r.range(1,8):r.range(8,24)); auto f=focus_ops(r,"C11",1+r.below(4),pick_op(r,"C11"));
  for(int k=0;k<n;k++){ int op=f[r.below(f.size())]; if(!eligible("C11",op)) op=pick_op(r,"C11"); add_event(p,op,next_words(r,p,op),0); Event &e=p.ev.back(); unsigned fl=g_ops[op].flags;
    if(fl&F_STREAM){ if(r.chance(2,3)) e.a[A_FMT]=1+r.below(4096); if(r.chance(1,3)) e.a[A_FILL]=(int64_t)"*0x #_"[r.below(6)]; if(r.chance(1,3)) e.a[A_SPREC]=1+r.below(20); if(r.chance(1,3)) e.a[A_LOC]=1; if(r.chance(1,3)){ size_t L=golden(op,e.w).text.size(); e.a[A_SFAULT]=1+r.below(3); e.a[A_SPOS]=r.below(L+2); } if(r.chance(1,4)) e.a[A_SEXC]=1+r.below(2); if(r.chance(1,12)){ e.a[A_SPRE]=1+r.below(4); e.a[A_SFAULT]=e.a[A_SPOS]=0; } }
    if(r.chance(1,3)) e.a[A_GLOC]=1; if((fl&F_DEBUG)&&r.chance(2,3)) e.a[A_DEBUG]=1; if((fl&(F_DEBUG|F_PRINTS))&&r.chance(1,2)){ e.a[A_CFAULT]=1+r.below(3); e.a[A_CPOS]=r.chance(1,2)?0:r.below(400); if(e.a[A_CFAULT]==1&&r.chance(1,3)) e.a[A_CPOS]=-1; if(r.chance(1,4)) e.a[A_CEXC]=1; } } return p; }
static Plan generate(const std::string &P,Rng &r){ if(P=="C01") return gen_C01(r); if(P=="C02") return gen_C02(r); if(P=="C03") return gen_C03(r); if(P=="C04") return gen_C04(r); if(P=="C05") return gen_C05(r); if(P=="C06") return gen_C06(r); if(P=="C07") return gen_C07(r); if(P=="C08") return gen_C08(r); if(P=="C10") return gen_C10(r); return gen_C11(r); }

static void count_run(const Plan &p,const Outcome &o){ ST["runs"]++; ST["calls"]+=p.ev.size(); ST["steps"]+=SH->steps; ST["context_switches"]+=SH->nsw; ST["interrupts_taken"]+=SH->nint; ST["blocked_waits"]+=SH->nblock; ST["thread_ends"]+=SH->nend; ST["exit_handlers_run"]+=SH->nhand; if(p.p[P_LIFE]) ST["runs_with_thread_lifetimes"]++; if(p.p[P_ENV]) ST["runs_with_other_surroundings"]++; if(o.timeout) ST["timeouts"]++; if(SH->harness) ST["inconclusive"]++;
  bool nt=SH->nsw>0||SH->nint>0||p.ev.size()>1; for(auto &e: p.ev){ ops_used.insert(e.op); const Res &R=SH->r[e.id]; for(int k=0;k<A_N;k++) if(e.a[k]){ nt=true; if(k==A_FAILMODE||k==A_SPOS||k==A_CPOS||k==A_TRIPLE) continue; ST[std::string("attr_")+attr_name[k]]++; }
    if(R.fails) ST["fault_allocation_failures"]+=R.fails; if(e.a[A_SFAULT]&&R.scut) ST[std::string("fault_stream_kind")+std::to_string(e.a[A_SFAULT])]++; if(R.status==ST_STDEXC) ST["calls_throwing"]++; if(R.status==ST_BADALLOC) ST["calls_bad_alloc"]++; if(R.status==ST_SIMTHROW) ST["calls_abandoned_by_callback"]++; for(size_t q=0,w=0;q<g_ops[e.op].sig.size();w+=g_ops[e.op].sig[q].words(),q++) if(g_ops[e.op].sig[q].k==K_G&&e.w[w+2]) ST["fault_generator_throws_planned"]++; }
  if(nt) { if(traces.insert(SH->trace).second) ST["distinct_nontrivial"]++; } }
static std::string jesc(const std::string &s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }

int main(int argc,char **argv){
  std::string cmd=argc>1?argv[1]:""; 
  if(!getenv("SIM_NOASLR")){ int pv=personality(0xffffffff); if(pv!=-1&&!(pv&ADDR_NO_RANDOMIZE)&&personality(pv|ADDR_NO_RANDOMIZE)!=-1){ char *env[]={(char*)"SIM_NOASLR=1",(char*)"PATH=/usr/bin:/bin",(char*)"LC_ALL=C",0}; execve("/proc/self/exe",argv,env); } }
  std::map<std::string,std::string> A; for(int i=cmd=="replay"?3:2;i+1<argc;i+=2) A[argv[i]]=argv[i+1];
  rt_register_all(); for(size_t i=0;i<g_ops.size();i++) sigof.push_back(sig_str(g_ops[i]));
  if(cmd=="list"){ for(auto &o: g_ops) printf("%s %u %d\n",o.name.c_str(),o.flags,o.words); return 0; }
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); FL=(Flat*)mmap(0,sizeof(Flat),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); SAVE=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  signal(SIGPIPE,SIG_IGN); { char b[4000]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-8); if(n>0){ b[n]=0; rt_load_data((std::string(b)+".data").c_str()); } } start_zygote(0); start_zygote(1);
  if(A.count("--known")){ std::ifstream f(A["--known"]); std::string ln; while(std::getline(f,ln)){ std::istringstream s(ln); std::string t; s>>t; if(t!="known:") continue; KnownF k; while(s>>t){ size_t q=t.find('='); if(q==std::string::npos) break; std::string n=t.substr(0,q),v=t.substr(q+1); if(n=="property") k.prop=v; else if(n=="kind") k.kind=v; else if(n=="file") k.file=v; else if(n=="on") k.on=v; else if(n=="op") k.op=v; else break; } known.push_back(k); } }
  if(cmd=="replay"){ Plan p; std::string kind; uint64_t tr=0,t1=0,t2=0; if(!plan_parse(argv[2],p,kind,tr)){ fprintf(stderr,"cannot read %s\n",argv[2]); return 2; } Outcome o; Verdict v=run_and_judge(p,&t1,&o); Verdict v2=run_and_judge(p,&t2);
    if(!v.bad){ printf("NOT REPRODUCED (%s)\n",o.timeout?"timeout":"no violation"); return 0; } printf("%s%s kind=%s %s\n",v.kind==kind&&t1==t2&&v2.kind==v.kind?"REPRODUCED":"DIFFERENT",tr==t1?" identically":" (other trace)",v.kind.c_str(),v.detail.c_str()); return 1; }
  if(cmd=="golden"){ for(size_t i=0;i<g_ops.size();i++){ Rng r(mix(i)); for(int k=0;k<atoi(A.count("--n")?A["--n"].c_str():"1");k++){ Words w; gen_words(g_ops[i],w.data(),r); const Golden &g=golden(i,w.data()); printf("%s ok=%d st=%d steps=%ld/%ld rec=%zu/%zu %s %s\n",g_ops[i].name.c_str(),g.ok,g.status,(long)g.steps,(long)g.steps2,g.rec.size(),g.rec2.size(),g.why.c_str(),g.text.substr(0,100).c_str()); } } return 0; }
  if(cmd!="search"){ fprintf(stderr,"usage: sim list|golden|replay FILE|search --prop P --seed S --worker I --nworkers N --runs R --wall W --out DIR\n"); return 2; }
  std::string P=A["--prop"], out=A["--out"]; uint64_t seed=strtoull(A["--seed"].c_str(),0,10); int wk=atoi(A["--worker"].c_str()), nw=atoi(A["--nworkers"].c_str()); long runs=atol(A["--runs"].c_str()); double wall=atof(A["--wall"].c_str()), t0=now(); const char *only=A.count("--ops")?A["--ops"].c_str():"";
  std::string exe=argv[0]; { size_t q=exe.rfind('/'); exe=exe.substr(q==std::string::npos?0:q+1); }
  // profile: which operations work here, and which of them touch state that outlives the call
  std::map<std::string,int> why; { Rng r(mix(seed*31+7)); for(size_t i=0;i<g_ops.size();i++){ if(!eligible(P,i)) continue; if(*only&&g_ops[i].name.find(only)==std::string::npos) continue; bool ok=false,sh=false; std::string w0; for(int k=0;k<3&&!ok;k++){ Words w; gen_words(g_ops[i],w.data(),r); const Golden &g=golden(i,w.data()); ok=g.ok; sh=!g.rec.empty(); w0=g.why; } if(!ok){ why[g_ops[i].name+": "+w0]++; continue; } usable.push_back(i); if(sh) shared_ops.push_back(i); by_sig[sigof[i]].push_back(i); by_base[base_of(g_ops[i].name)].push_back(i); } }
  { char b[4000]; ssize_t n=readlink("/proc/self/exe",b,sizeof b-8); if(n>0){ b[n]=0; std::ifstream g(std::string(b)+".data"); std::string ln; while(std::getline(g,ln)){ std::istringstream s(ln); uint32_t a=0,sz=0; std::string nm; s>>std::hex>>a>>sz; std::getline(s,nm); libsyms[a+sz]={a,nm}; } } }
  { Rng r(mix(seed*77+5)); double t1=now(); size_t np=0; for(int i: usable) if(now()-t1<12){ probe_op(i,r); np++; } ST["ops_probed"]=np; ST["probe_ms"]=(now()-t1)*1000; if(getenv("SIM_DEBUG")) for(int i: hot_ops) for(uint32_t a: hot_addr[i]) { std::string nm; for(auto &q: libsyms) if(q.second.first==a) nm=q.second.second; fprintf(stderr,"hot %s %x %s\n",g_ops[i].name.c_str(),a,nm.c_str()); } }
  g_screen=(P!="C01"&&P!="C02"&&P!="C03"&&P!="C10")||wk%2==1; // where histories are the point, only every other worker screens
  pool.resize(g_ops.size()); int nviol=0; std::vector<std::string> samples; long batch=0; const int BATCH=400; bool stop=usable.empty()&&wild.empty();
  std::vector<std::pair<int,std::string>> viol; long others=0, unconfirmed=0; std::set<std::string> other_seen;
  for(batch=wk;!stop;batch+=nw){ uint64_t bseed=mix(seed*1000003+std::hash<std::string>()(P)%1000003)^mix(batch+17); Rng r(bseed); for(auto &q: pool) q.clear();
    for(int k=0;k<BATCH;k++){ if(ST["runs"]>=runs||now()-t0>wall){ stop=true; break; } Plan p; bool ok=true; if(P=="C02"&&!wild.empty()){ p.prop=P; add_event(p,wild.back().first,wild.back().second,0); wild.pop_back(); } else { p=generate(P,r); if(p.ev.empty()) continue; for(auto &e: p.ev) if(!golden(e.op,e.w).ok) ok=false; } if(!ok){ ST["plans_dropped"]++; continue; }
      uint64_t tr=0; Outcome o=execute(p,opts(p)); tr=SH->trace^mix(SH->fatal+o.status); count_run(p,o);
      if((int)samples.size()<3&&k%7==3) samples.push_back(plan_text(p,Verdict(),tr,exe.c_str()).substr(0,1500));
      Verdict v=judge_run(p,o);
      if(!v.bad&&r.chance(1,100)){ uint64_t t2=0; Outcome o2; run_and_judge(p,&t2,&o2); ST["determinism_reruns"]++; if(t2!=tr&&!o.timeout&&!o2.timeout){ ST["determinism_mismatches"]++; if(getenv("SIM_DEBUG")){ fprintf(stderr,"NONDET\n%s\n",plan_text(p,v,tr,exe.c_str()).c_str()); } } }
      if(v.bad){ struct St { St(){ g_strict=true; } ~St(){ g_strict=false; } } strict_; uint64_t t1=0,t2=0; Verdict a=run_and_judge(p,&t1),b=run_and_judge(p,&t2); if(!a.bad||!b.bad||t1!=t2||t1!=tr||a.kind!=v.kind){ unconfirmed++; continue; } if(neutral_fails(p,v)){ others++; other_seen.insert(v.detail.substr(0,300)); continue; }
        Plan m=minimise(p,v,500,25); Verdict mv=run_and_judge(m,&t1); if(!mv.bad){ m=p; mv=run_and_judge(m,&t1); } char fn[400]; snprintf(fn,400,"%s/%s-%s-seed%llu-w%d-b%ld-%d.replay",out.c_str(),P.c_str(),exe.c_str(),(unsigned long long)seed,wk,batch,nviol); { std::ofstream f(fn); f<<plan_text(m,mv,t1,exe.c_str())<<"# batch seed "<<bseed<<" run "<<k<<"; before minimisation: "<<p.ev.size()<<" calls, "<<p.sw.size()<<" switches\n"; }
        viol.push_back({nviol++,std::string(fn)+"\t"+mv.kind+"\t"+mv.detail}); stop=true; break; } } }
  printf("{\"worker\":%d,\"exe\":\"%s\",\"wall\":%.1f,\"batches\":%ld,\"goldens\":%ld,\"goldens_unusable\":%ld,\"screens\":%ld,\"ops_usable\":%zu,\"ops_shared\":%zu,\"ops_hot\":%zu,\"ops_used\":%zu,\"initialisers\":%d,\"executions\":%ld,\"unconfirmed\":%ld,\"other_property\":%ld",wk,exe.c_str(),now()-t0,(batch-wk)/nw+1,n_gold,n_goldbad,n_screen,usable.size(),shared_ops.size(),hot_ops.size(),ops_used.size(),rt_ninits(),n_exec,unconfirmed,others);
  printf(",\"stats\":{"); bool first=true; for(auto &k: ST){ printf("%s\"%s\":%ld",first?"":",",k.first.c_str(),k.second); first=false; } printf("},\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s\"%s\"",i?",":"",jesc(samples[i]).c_str()); printf("],\"unusable\":["); first=true; for(auto &k: why){ printf("%s\"%s\"",first?"":",",jesc(k.first).c_str()); first=false; } printf("],\"others\":["); first=true; for(auto &k: other_seen){ printf("%s\"%s\"",first?"":",",jesc(k).c_str()); first=false; } printf("],\"known\":["); first=true; for(auto &k: known_hit){ printf("%s\"%s\"",first?"":",",jesc(k).c_str()); first=false; }
  printf("],\"violations\":["); for(size_t i=0;i<viol.size();i++) printf("%s\"%s\"",i?",":"",jesc(viol[i].second).c_str()); printf("]}\n"); fflush(stdout); return 0; }
