// C09: values saved as text survive crashes of the process that wrote them, or are refused.
// Every lifetime of the application is a forked process which sees only what the simulated disk kept. The plan (drawn from a seed)
// decides what the application computes, when it saves, when it is killed, what the disk loses, tears, zero-fills, joins or repeats,
// and what damage befalls saved text afterwards. The reference model below reads raw bytes and shares no code with the library.
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "thls/tops/fw_uint.hpp"
#include "thls/tops/fp_flopoco.hpp"
#include "thls/tops/fp_flopoco_primitives.hpp"
#include "thls/tops/fp_flopoco_add_single_v5.hpp"
#include "thls/tops/lut_opt.hpp"
using namespace thls;
static inline uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x){} uint64_t next(){ s+=0x9E3779B97F4A7C15ull; return mix(s); } uint64_t below(uint64_t n){ return n? next()%n:0; } bool chance(int a,int b){ return below(b)<(uint64_t)a; } int64_t range(int64_t a,int64_t b){ return a+(int64_t)below(b-a+1); } };
static uint64_t lowmask(int w){ return w>=64?~0ull:((1ull<<w)-1); }

// ---- the library under test, by width
struct Width { int w; void (*parse)(const char*,uint64_t&); std::string (*str)(uint64_t); void (*print)(std::ostream&,uint64_t); };
template<int W> struct L { static fw_uint<W> mk(uint64_t v){ return fw_uint<W>::from_bits((typename fw_uint<W>::bits_t)v); }
  static void parse(const char*s,uint64_t&v){ fw_uint<W> x(s); v=(uint64_t)x.to_uint64(); } static std::string str(uint64_t v){ return mk(v).to_string(); } static void print(std::ostream&o,uint64_t v){ o<<mk(v); } };
static Width widths[65];
template<int W> struct Fill { static void go(){ widths[W]=Width{W,L<W>::parse,L<W>::str,L<W>::print}; Fill<W-1>::go(); } };
template<> struct Fill<0> { static void go(){} };
// ---- machines: state of at most 64 bits, advanced by an input that depends on the step number
struct Machine { const char *name; int w; uint64_t (*step)(uint64_t s,uint64_t t); };
template<int W> uint64_t m_acc(uint64_t s,uint64_t t){ auto x=L<W>::mk(s)+L<W>::mk(mix(t)&lowmask(W)); return (uint64_t)x.to_uint64(); }
template<int W> uint64_t m_count(uint64_t s,uint64_t){ auto x=L<W>::mk(s)+fw_uint<W>(1); return (uint64_t)x.to_uint64(); }
template<int N,int T,uint32_t S> uint64_t m_lut(uint64_t s,uint64_t){ return (uint64_t)lut_opt_spec<N,T,S>::step(L<N>::mk(s)).to_uint64(); }
template<int E,int F> fp_flopoco<E,F> X(uint64_t v){ return fp_flopoco<E,F>(L<3+E+F>::mk(v)); }
template<int E,int F> uint64_t m_facc(uint64_t s,uint64_t t){ uint64_t u=mix(t*3+1); uint64_t b=(1ull<<(1+E+F))|((u>>50&1)<<(E+F))|(((1ull<<(E-1))-1+(u>>40)%3)<<F)|(u&lowmask(F)); auto x=add<E,F>(X<E,F>(s),X<E,F>(b)); return (uint64_t)x.bits.to_uint64(); }
template<int E,int F> uint64_t m_fmul(uint64_t s,uint64_t t){ uint64_t u=mix(t*5+1); uint64_t b=(1ull<<(1+E+F))|((u>>50&1)<<(E+F))|(((1ull<<(E-1))-2+(u>>40)%2)<<F)|(u&lowmask(F)); auto x=mul<E,F>(X<E,F>(s),X<E,F>(b)); return (uint64_t)x.bits.to_uint64(); }
template<int W> uint64_t m_shift(uint64_t s,uint64_t t){ auto x=L<W>::mk(s); auto y=x^(x<<3); auto z=y^(y>>(int)(W/2)); z=z+L<W>::mk(t&lowmask(W)); return (uint64_t)z.to_uint64(); }
static const Machine machines[]={ {"acc<7>",7,m_acc<7>},{"acc<8>",8,m_acc<8>},{"acc<13>",13,m_acc<13>},{"acc<16>",16,m_acc<16>},{"acc<31>",31,m_acc<31>},{"acc<32>",32,m_acc<32>},{"acc<33>",33,m_acc<33>},{"acc<48>",48,m_acc<48>},{"acc<57>",57,m_acc<57>},{"acc<63>",63,m_acc<63>},{"acc<64>",64,m_acc<64>},
  {"count<4>",4,m_count<4>},{"count<9>",9,m_count<9>},{"count<24>",24,m_count<24>},{"count<40>",40,m_count<40>},{"lut_opt<8,3>",8,m_lut<8,3,1>},{"lut_opt<16,3>",16,m_lut<16,3,1>},{"lut_opt<32,4>",32,m_lut<32,4,7>},
  {"facc<5,10>",18,m_facc<5,10>},{"facc<8,23>",34,m_facc<8,23>},{"fmul<5,10>",18,m_fmul<5,10>},{"fmul<8,23>",34,m_fmul<8,23>},{"shift<20>",20,m_shift<20>},{"shift<33>",33,m_shift<33>},{"shift<64>",64,m_shift<64>} };
enum { NMACH=sizeof machines/sizeof *machines };

// ---- reference model of the text form
enum Cls { C_VALUE, C_REFUSE, C_EITHER, C_FREE };  // must be this value / must be refused / this value or refused / nothing is promised
static Cls classify(const std::string &raw,int W,uint64_t &v,bool intact){
  std::string s=raw.substr(0,raw.find('\0')); v=0;
  if(s.compare(0,2,"0b")==0&&s.size()>=2){ int n=0; bool bad=false; size_t end=s.size(); while(end>2&&strchr(" \t\n\v\f\r",s[end-1])) end--;   // trailing blanks do not change what is spelled
    for(size_t i=2;i<end;i++){ char c=s[i]; if(c=='_') continue; if(c=='0'||c=='1'){ n++; v=v<<1|(uint64_t)(c-'0'); } else bad=true; }
    if(bad||n!=W) return C_REFUSE; return intact?C_VALUE:C_EITHER; }
  for(char c: s) if(c>='0'&&c<='9') return C_FREE;
  return C_REFUSE; }

// ---- plan
enum Dmg { D_NONE,D_CUT,D_ZERO,D_PAD,D_JOIN,D_GARBLE,D_SHORT,D_DUP,D_DROP,D_INSERT,D_BLANK,D_N }; static const char *dname[]={"none","cut","zerofill","pad","join","garble","shortread","duplicate","drop","insert","blank"};
struct Damage { int kind; int pos,len; int ch; };
struct Arch { int w; uint64_t v; int via; int nd; Damage d[3]; };         // an archived record, damaged at rest, read back by the last lifetime
struct Life { int steps, every, kill; uint64_t cache; int nd; int file; Damage d[2]; int rd; }; // steps to run, checkpoint interval, disk operation at which it is killed (0: never), fate of unsynced writes, damage at rest afterwards, short read
enum { MAXL=6, MAXA=24, MAXS=64 };
struct Plan { int mach, strat, via, sync, chunk; uint64_t init; int nl; Life l[MAXL]; int na; Arch a[MAXA]; };
static const char *strat[]={"in place","new file and rename","journal","two slots"};

// ---- simulated disk (shared between lifetimes)
enum { NF=4, FSZ=6000 };
struct File { int len; char b[FSZ]; };
struct Pend { int file,kind; int off,len; char b[200]; int tofile; };   // kind 0 write, 1 truncate, 2 rename
struct Log { int st; int w; int cls; uint64_t expect,got; int tl; char t[700]; int arch; int intact; };   // st: 1 started, 2 value, 3 refused, 4 other exception
struct Sh { File dur[NF], vol[NF]; int np; Pend p[200]; uint64_t trace; long ops, writes, syncs, renames, saves; int silent; int badtext; uint64_t badval; char badstr[200];
  int nlog; Log log[900]; int from_w; uint64_t s0,t0; int recovered; int nst; uint64_t st[MAXS]; int reached; int dropped; int gold_n; uint64_t gold[MAXS+2]; long faults[16]; int arch_done; };
static Sh *S; static long kill_at, opcount; static int MYCHUNK;
static void op(){ S->ops++; if(++opcount==kill_at) _exit(42); }
static void apply(File *f,const Pend&p,File *all){ if(p.kind==1){ f->len=p.len<f->len?p.len:f->len; } else if(p.kind==0){ if(p.off+p.len>FSZ) return; if(f->len<p.off) memset(f->b+f->len,0,p.off-f->len); memcpy(f->b+p.off,p.b,p.len); if(f->len<p.off+p.len) f->len=p.off+p.len; } else { all[p.tofile]=*f; f->len=0; } }
static Pend &newp(){ if(S->np>=190){ for(int i=0;i<S->np;i++) apply(&S->dur[S->p[i].file],S->p[i],S->dur); S->np=0; } return S->p[S->np++]; }
static void d_trunc(int f,int n){ op(); Pend&p=newp(); p.file=f; p.kind=1; p.len=n; apply(&S->vol[f],p,S->vol); }
static void d_write(int f,int off,const char*b,int n){ for(int i=0;i<n;){ op(); int k=std::min(n-i,MYCHUNK); Pend&p=newp(); p.file=f; p.kind=0; p.off=off+i; p.len=k; memcpy(p.b,b+i,k); apply(&S->vol[f],p,S->vol); i+=k; S->writes++; S->trace=mix(S->trace^(uint64_t)(f*1000+p.off)^mix((unsigned char)b[i-1])); } }
static void d_sync(){ op(); for(int i=0;i<S->np;i++) apply(&S->dur[S->p[i].file],S->p[i],S->dur); S->np=0; S->syncs++; }
static void d_rename(int a,int b){ op(); Pend&p=newp(); p.file=a; p.kind=2; p.tofile=b; apply(&S->vol[a],p,S->vol); S->renames++; }
// what survives a crash: each unsynced operation is kept, lost, torn or leaves zeros
static void crash_disk(uint64_t fate){ Rng r(fate); int style=(int)r.below(4); if(fate==0) style=3; for(int i=0;i<S->np;i++){ Pend p=S->p[i]; int x=style==0?1:style==3?0:(int)r.below(6); S->faults[0]++;
    if(x==1){ S->faults[1]++; continue; } if(x==2&&p.kind==0&&p.len>0){ p.len=(int)r.below(p.len); S->faults[2]++; } if(x==3&&p.kind==0){ memset(p.b,0,p.len); S->faults[3]++; } apply(&S->dur[p.file],p,S->dur); }
  S->np=0; memcpy(S->vol,S->dur,sizeof S->vol); S->trace=mix(S->trace^fate); }
static std::string damage(std::string t,const Damage&d,const std::string&other){ size_t n=t.size(); size_t lo=2,pos=n>lo?lo+(size_t)d.pos%(n-lo):n; // keeps the "0b" prefix
  switch(d.kind){ case D_CUT: t.resize(n?2+(size_t)d.pos%(n>2?n-2:1):0); break; case D_ZERO: for(size_t i=pos;i<n&&(int)(i-pos)<d.len;i++) t[i]=0; break; case D_PAD: t.append(d.len,(char)d.ch); break; case D_JOIN: t+=other; break;
    case D_GARBLE: for(size_t i=pos;i<n&&(int)(i-pos)<d.len;i++) t[i]=(char)d.ch; break; case D_SHORT: t.resize((size_t)d.pos%(n+1)); break; case D_DUP: t.insert(pos,t.substr(pos,d.len)); break; case D_DROP: if(pos<n) t.erase(pos,d.len); break; case D_INSERT: t.insert(pos,d.len,(char)d.ch); break; case D_BLANK: t.assign(d.len,(char)d.ch); break; }
  return t; }
static const char junk[]={'2','9','x','b','B','-','+',' ','\n','.','e','/',':','a','\x7f','\x80','\xff','O','l','\'',','};
static bool isbin(int ch){ return ch=='0'||ch=='1'||ch=='_'; }

// ---- one lifetime of the application
static char *page; static size_t PG;
static bool read_text(const std::string&raw,int w,bool intact,uint64_t&v,int arch){ if(S->nlog>=890) return false; Log&l=S->log[S->nlog++]; l.w=w; uint64_t e; l.cls=classify(raw,w,e,intact); l.expect=e; l.tl=(int)std::min<size_t>(raw.size(),sizeof l.t); memcpy(l.t,raw.data(),l.tl); l.arch=arch; l.intact=intact; l.st=1;
  std::string c=raw.substr(0,raw.find('\0')); if(c.size()+1>PG) c.resize(PG-1); char *p=page+PG-c.size()-1; memcpy(p,c.data(),c.size()); p[c.size()]=0;   // the byte after the text is not mapped
  try{ widths[w].parse(p,v); l.got=v; l.st=2; return true; } catch(std::exception&){ l.st=3; } catch(...){ l.st=4; } return false; }
struct DiskBuf : std::streambuf { std::string s; std::streamsize xsputn(const char*b,std::streamsize n) override { s.append(b,n); return n; } int_type overflow(int_type c) override { if(c!=traits_type::eof()) s+=(char)c; return c; } };
static std::string form(int w,uint64_t v,int via){ if(via==0) return widths[w].str(v); DiskBuf b; std::ostream o(&b); widths[w].print(o,v); if(!o.good()) S->silent=1; return b.s; }
static std::string checked_form(int w,uint64_t v,int via){ std::string t=form(w,v,via); uint64_t e; if(classify(t,w,e,true)!=C_VALUE||e!=v||t.find('\0')!=std::string::npos){ S->badtext=w; S->badval=v; snprintf(S->badstr,sizeof S->badstr,"%s",t.c_str()); } return t; }
static void save(const Plan&p,int file,uint64_t s,uint64_t t){ const Machine&m=machines[p.mach]; std::string r=checked_form(m.w,s,p.via)+"\n"+checked_form(16,t&0xFFFF,p.via)+"\n"; S->saves++;
  if(p.strat==0){ d_write(0,0,r.data(),(int)r.size()); if(p.sync) d_sync(); } else if(p.strat==1){ d_trunc(1,0); d_write(1,0,r.data(),(int)r.size()); if(p.sync) d_sync(); d_rename(1,0); if(p.sync>1) d_sync(); }
  else if(p.strat==2){ int n=S->vol[0].len; if(n+(int)r.size()>FSZ-100){ d_trunc(0,0); n=0; } d_write(0,n,r.data(),(int)r.size()); if(p.sync) d_sync(); } else { int f=(t/1)%2; d_trunc(f,0); d_write(f,0,r.data(),(int)r.size()); if(p.sync) d_sync(); } (void)file; }
static bool recover(const Plan&p,const Life&l,int file,uint64_t&s,uint64_t&t){ std::string c(S->vol[file].b,S->vol[file].len); if(l.rd>0&&(int)c.size()>l.rd) { c.resize(l.rd); S->faults[4]++; } std::vector<std::string> ln; size_t i=0; while(i<c.size()){ size_t q=c.find('\n',i); if(q==std::string::npos) q=c.size(); ln.push_back(c.substr(i,q-i)); i=q+1; }
  const Machine&m=machines[p.mach]; if(p.strat==2&&ln.size()>2){ std::vector<std::string> x(ln.end()-2,ln.end()); for(int k=(int)ln.size()-2;k>=0&&k>(int)ln.size()-6;k--){ uint64_t a,b; if(read_text(ln[k],m.w,false,a,-1)&&read_text(ln[k+1],16,false,b,-1)){ s=a; t=b; return true; } } return false; }
  if(ln.empty()) ln.push_back(""); uint64_t a,b; bool okA=read_text(ln[0],m.w,false,a,-1); bool okB=read_text(ln.size()>1?ln[1]:std::string(),16,false,b,-1); if(okA&&okB){ s=a; t=b; return true; } return false; }
static void lifetime(const Plan&p,int k){ const Life&l=p.l[k]; const Machine&m=machines[p.mach]; struct rlimit rl={20,20}; setrlimit(RLIMIT_CPU,&rl); struct rlimit cl={0,0}; setrlimit(RLIMIT_CORE,&cl); { FILE*f=freopen("/dev/null","w",stderr); (void)f; }
  kill_at=l.kill; opcount=0; MYCHUNK=p.chunk; uint64_t s=p.init&lowmask(m.w),t=0; bool got=false; S->recovered=0;
  if(k>0){ if(p.strat==3){ uint64_t s1,t1,s2,t2; bool a=recover(p,l,0,s1,t1),b=recover(p,l,1,s2,t2); if(a&&(!b||t1>=t2)){ s=s1; t=t1; got=true; } else if(b){ s=s2; t=t2; got=true; } } else got=recover(p,l,0,s,t); }
  if(!got){ s=p.init&lowmask(m.w); t=0; } S->recovered=got; S->s0=s; S->t0=t; S->nst=0; S->reached=1;
  for(int i=0;i<l.steps&&i<MAXS;i++){ s=m.step(s,t); t=(t+1)&0xFFFF; S->st[S->nst++]=s; S->trace=mix(S->trace^s); if(l.every&&(i+1)%l.every==0) save(p,0,s,t); }
  if(k==p.nl-1) for(int i=0;i<p.na;i++){ const Arch&a=p.a[i]; std::string x=checked_form(a.w,a.v,a.via),o=checked_form(a.w,mix(a.v)&lowmask(a.w),a.via),r=x; for(int j=0;j<a.nd;j++){ r=damage(r,a.d[j],j&1?x:o); S->faults[4+a.d[j].kind%11]++; } uint64_t v; read_text(r,a.w,r==x,v,i); S->trace=mix(S->trace^S->log[S->nlog-1].st^S->log[S->nlog-1].got); S->arch_done=i+1; }
  _exit(0); }
static void golden_child(int mach,uint64_t s,uint64_t t,int n){ struct rlimit rl={20,20}; setrlimit(RLIMIT_CPU,&rl); { FILE*f=freopen("/dev/null","w",stderr); (void)f; } for(int i=0;i<n;i++){ s=machines[mach].step(s,t); t=(t+1)&0xFFFF; S->gold[i]=s; S->gold_n=i+1; } _exit(0); }

// ---- one run
struct Verdict { bool bad; std::string kind,detail; Verdict():bad(false){} };
static long n_exec=0;
static int wait_for(pid_t c){ int st=0; while(waitpid(c,&st,0)<0&&errno==EINTR); return st; }
static std::string show(const char*t,int n){ std::string o; for(int i=0;i<n;i++){ unsigned char c=t[i]; if(c<32||c>126||c=='\\'){ char b[8]; snprintf(b,8,"\\x%02x",c); o+=b; } else o+=(char)c; } return o; }
static Verdict fail(const char*k,const std::string&d){ Verdict v; v.bad=true; v.kind=k; v.detail=d; return v; }
static std::map<std::string,long> ST; static bool counting=false;
static void cnt(const char*k,long n=1){ if(counting) ST[k]+=n; }
static Verdict run(const Plan&p,uint64_t*tr){ memset(S,0,offsetof(Sh,log)); S->nlog=0; Verdict v; const Machine&m=machines[p.mach]; memset((char*)S+offsetof(Sh,from_w),0,sizeof(Sh)-offsetof(Sh,from_w));
  for(int k=0;k<p.nl&&!v.bad;k++){ S->reached=0; S->nlog=0; S->nst=0; n_exec++; fflush(stdout); pid_t c=fork(); if(c==0) lifetime(p,k); int st=wait_for(c); cnt("lifetimes"); cnt("steps",S->nst);
    if(WIFSIGNALED(st)&&(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL)){ cnt("timeouts"); break; }
    bool free_=false;
    for(int i=0;i<S->nlog&&!v.bad;i++){ const Log&l=S->log[i]; std::string T="fw_uint<"+std::to_string(l.w)+">(\""+show(l.t,l.tl)+"\")"; cnt("texts_read"); cnt(l.cls==C_VALUE?"texts_intact":l.cls==C_REFUSE?"texts_to_refuse":l.cls==C_EITHER?"texts_spelling_a_value":"texts_unconstrained");
      if(l.cls==C_FREE){ free_=free_||l.st==1; continue; } 
      if(l.st==1) v=fail("crash",T+" ended the process"); else if(l.cls==C_REFUSE&&l.st==2) v=fail("accepted",T+" was read as "+std::to_string(l.got)+" although it spells no value of that width"); else if(l.cls==C_VALUE&&l.st!=2) v=fail("refused",T+" was refused although it is exactly what was written"); else if(l.st==4) v=fail("exception",T+" threw something that is not a std::exception");
      else if((l.cls==C_VALUE||l.cls==C_EITHER)&&l.st==2&&l.got!=l.expect) v=fail("value",T+" was read as "+std::to_string(l.got)+" but spells "+std::to_string(l.expect)); if(l.st==3) cnt("texts_refused"); }
    if(v.bad) break;
    if(S->badtext) v=fail("written","the text \""+show(S->badstr,strlen(S->badstr))+"\" written for value "+std::to_string(S->badval)+" of width "+std::to_string(S->badtext)+" does not spell it"); else if(S->silent) v=fail("stream","writing to a healthy stream left it in a failed state");
    else if(WIFSIGNALED(st)){ if(free_){ cnt("ended_on_unconstrained_text"); } else v=fail("crash","lifetime "+std::to_string(k)+" of "+m.name+": "+strsignal(WTERMSIG(st))); }
    if(v.bad) break;
    if(S->reached&&S->nst>0){ uint64_t s0=S->s0,t0=S->t0; int n=S->nst; n_exec++; S->gold_n=0; pid_t g=fork(); if(g==0) golden_child(p.mach,s0,t0,n); int gs=wait_for(g); if(WIFEXITED(gs)&&S->gold_n==n){ cnt("resumed_compared"); for(int i=0;i<n;i++) if(S->gold[i]!=S->st[i]){ v=fail("resume",std::string("lifetime ")+std::to_string(k)+" of "+m.name+" resumed at step "+std::to_string(t0)+" but "+std::to_string(i+1)+" steps later its state differs from the uninterrupted run"); break; } } if(S->recovered) cnt("lifetimes_resumed"); else if(k) cnt("cold_starts"); }
    if(v.bad) break;
    if(WIFEXITED(st)&&WEXITSTATUS(st)==42){ cnt("fault_killed"); } if(k+1<p.nl){ if(WIFEXITED(st)&&WEXITSTATUS(st)==0&&!p.l[k].kill&&p.l[k].cache==0){ S->np=0; memcpy(S->dur,S->vol,sizeof S->dur); } else crash_disk(p.l[k].cache);
      for(int j=0;j<p.l[k].nd;j++){ File&f=S->dur[p.l[k].file]; std::string t(f.b,f.len); std::string o(S->dur[p.l[k].file^1].b,S->dur[p.l[k].file^1].len); if(t.size()>2){ t=damage(t,p.l[k].d[j],o.empty()?t:o); cnt((std::string("fault_disk_")+dname[p.l[k].d[j].kind]).c_str()); } if(t.size()>FSZ-200) t.resize(FSZ-200); f.len=(int)t.size(); memcpy(f.b,t.data(),t.size()); } memcpy(S->vol,S->dur,sizeof S->vol); } }
  cnt("disk_operations",S->ops); cnt("disk_writes",S->writes); cnt("disk_syncs",S->syncs); cnt("disk_renames",S->renames); cnt("saves",S->saves); cnt("fault_unsynced_writes_lost",S->faults[1]); cnt("fault_unsynced_writes_torn",S->faults[2]); cnt("fault_unsynced_writes_zeroed",S->faults[3]); 
  if(tr) *tr=S->trace^mix(v.bad); return v; }

// ---- generation, text, minimisation
static Damage gdmg(Rng&r,int w){ Damage d; d.kind=1+(int)r.below(D_N-1); if(d.kind==D_BLANK&&!r.chance(1,4)) d.kind=D_CUT; d.pos=(int)r.below(w+w/8+3); d.len=r.chance(1,2)?1:1+(int)r.below(12); d.ch=(unsigned char)junk[r.below(sizeof junk)]; if(r.chance(1,8)) d.ch=0; if(d.kind==D_PAD||d.kind==D_INSERT) { if(r.chance(1,2)) d.ch="01_\n"[r.below(4)]; } if(d.kind==D_CUT&&r.chance(1,2)) d.pos=w+w/8-(int)r.below(4); if(d.pos<0) d.pos=0; if(d.kind==D_BLANK){ static const char b[]={' ','\n','\t',0,'-','x','_','.'}; d.ch=b[r.below(8)]; d.len=(int)r.below(20); } return d; }
static Plan gen(Rng&r){ Plan p; memset(&p,0,sizeof p); p.mach=(int)r.below(NMACH); p.strat=(int)r.below(4); p.via=(int)r.below(2); p.sync=(int)r.below(3); static const int ch[]={200,64,16,8,3,1}; p.chunk=ch[r.below(6)]; const Machine&m=machines[p.mach]; p.init=r.next()&lowmask(m.w); if(m.w==18||m.w==34) p.init=1ull<<(m.w-2); if(!p.init) p.init=1; p.nl=1+(int)r.below(MAXL);
  for(int k=0;k<p.nl;k++){ Life&l=p.l[k]; l.steps=1+(int)r.below(20); l.every=1+(int)r.below(4); l.kill=r.chance(1,3)?0:1+(int)r.below(r.chance(1,2)?12:120); l.cache=r.chance(1,6)?0:1+r.next()%1000000; if(r.chance(1,3)){ l.nd=1+(int)r.below(2); l.file=p.strat==3?(int)r.below(2):0; for(int j=0;j<l.nd;j++){ l.d[j]=gdmg(r,m.w); } } if(r.chance(1,8)) l.rd=1+(int)r.below(m.w+m.w/8+24); }
  p.na=r.chance(1,5)?0:(int)r.below(MAXA+1); int fw=1+(int)r.below(64); bool one=r.chance(1,2); for(int i=0;i<p.na;i++){ Arch&a=p.a[i]; a.w=one?fw:1+(int)r.below(64); uint64_t x=r.next(); switch(r.below(5)){ case 0: x=0; break; case 1: x=~0ull; break; case 2: x=1ull<<r.below(64); break; } a.v=x&lowmask(a.w); a.via=(int)r.below(2); a.nd=r.chance(1,5)?0:r.chance(3,4)?1:1+(int)r.below(3); for(int j=0;j<a.nd;j++) a.d[j]=gdmg(r,a.w); }
  return p; }
static std::string text(const Plan&p,const Verdict&v,uint64_t tr){ std::ostringstream o; o<<"# replay with: c09 replay <this file>\nprop C09\n# "<<machines[p.mach].name<<", "<<strat[p.strat]<<"\nrun mach="<<p.mach<<" strat="<<p.strat<<" via="<<p.via<<" sync="<<p.sync<<" chunk="<<p.chunk<<" init="<<p.init<<"\n";
  for(int k=0;k<p.nl;k++){ const Life&l=p.l[k]; o<<"life "<<l.steps<<" "<<l.every<<" "<<l.kill<<" "<<l.cache<<" "<<l.file<<" "<<l.rd<<" "<<l.nd; for(int j=0;j<l.nd;j++) o<<" "<<l.d[j].kind<<" "<<l.d[j].pos<<" "<<l.d[j].len<<" "<<l.d[j].ch; o<<"\n"; }
  for(int k=0;k<p.na;k++){ const Arch&a=p.a[k]; o<<"rec "<<a.w<<" "<<a.v<<" "<<a.via<<" "<<a.nd; for(int j=0;j<a.nd;j++) o<<" "<<a.d[j].kind<<" "<<a.d[j].pos<<" "<<a.d[j].len<<" "<<a.d[j].ch; o<<"\n"; }
  o<<"expect "<<(v.bad?v.kind:std::string("-"))<<"\ntrace "<<std::hex<<tr<<std::dec<<"\n# "<<v.detail<<"\n"; return o.str(); }
static bool parse(const char*fn,Plan&p,std::string&kind,uint64_t&tr){ std::ifstream f(fn); if(!f) return false; memset(&p,0,sizeof p); std::string l; while(std::getline(f,l)){ std::istringstream s(l); std::string k; s>>k; if(k=="run"){ std::string t; while(s>>t){ size_t q=t.find('='); if(q==std::string::npos) continue; std::string n=t.substr(0,q); uint64_t x=strtoull(t.c_str()+q+1,0,10); if(n=="mach") p.mach=(int)x; else if(n=="strat") p.strat=(int)x; else if(n=="via") p.via=(int)x; else if(n=="sync") p.sync=(int)x; else if(n=="chunk") p.chunk=(int)x; else if(n=="init") p.init=x; } }
    else if(k=="life"&&p.nl<MAXL){ Life&z=p.l[p.nl++]; s>>z.steps>>z.every>>z.kill>>z.cache>>z.file>>z.rd>>z.nd; if(z.nd>2) return false; for(int j=0;j<z.nd;j++) s>>z.d[j].kind>>z.d[j].pos>>z.d[j].len>>z.d[j].ch; } else if(k=="rec"&&p.na<MAXA){ Arch&a=p.a[p.na++]; s>>a.w>>a.v>>a.via>>a.nd; if(a.nd>3) return false; for(int j=0;j<a.nd;j++) s>>a.d[j].kind>>a.d[j].pos>>a.d[j].len>>a.d[j].ch; } else if(k=="expect") s>>kind; else if(k=="trace") s>>std::hex>>tr>>std::dec; }
  return p.mach>=0&&p.mach<NMACH&&p.chunk>0; }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Plan minimise(Plan p,const std::string&kind,double tmax){ double t0=now(); counting=false; auto fails=[&](const Plan&q){ if(now()-t0>tmax) return false; Verdict v=run(q,0); return v.bad&&v.kind==kind; };
  for(bool ch=true;ch;){ ch=false; for(int i=0;i<p.na;){ Plan q=p; for(int j=i;j+1<p.na;j++) q.a[j]=q.a[j+1]; q.na--; if(fails(q)){ p=q; ch=true; } else i++; } for(int i=0;i<p.nl&&p.nl>1;){ Plan q=p; for(int j=i;j+1<p.nl;j++) q.l[j]=q.l[j+1]; q.nl--; if(fails(q)){ p=q; ch=true; } else i++; }
    for(int i=0;i<p.nl;i++){ Plan q=p; Life&l=q.l[i]; if(l.nd){ l.nd--; if(fails(q)){ p=q; ch=true; } q=p; } if(q.l[i].rd){ q.l[i].rd=0; if(fails(q)){ p=q; ch=true; } q=p; } if(q.l[i].steps>1){ q.l[i].steps/=2; if(fails(q)){ p=q; ch=true; } q=p; } if(q.l[i].kill){ q.l[i].kill=0; if(fails(q)){ p=q; ch=true; } q=p; } if(q.l[i].cache){ q.l[i].cache=0; if(fails(q)){ p=q; ch=true; } } }
    for(int i=0;i<p.na;i++) for(int j=0;j<p.a[i].nd;j++){ Plan q=p; for(int x=j;x+1<q.a[i].nd;x++) q.a[i].d[x]=q.a[i].d[x+1]; q.a[i].nd--; if(fails(q)){ p=q; ch=true; break; } } }
  return p; }
static std::string jesc(const std::string&s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
int main(int argc,char**argv){ S=(Sh*)mmap(0,sizeof(Sh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); PG=4096; page=(char*)mmap(0,2*PG,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(page+PG,PG,PROT_NONE); Fill<64>::go(); std::string cmd=argc>1?argv[1]:"";
  if(cmd=="replay"){ Plan p; std::string kind; uint64_t tr=0,t1=0,t2=0; if(!parse(argv[2],p,kind,tr)){ fprintf(stderr,"cannot read %s\n",argv[2]); return 2; } Verdict v=run(p,&t1),w=run(p,&t2); if(!v.bad){ printf("NOT REPRODUCED\n"); return 0; } printf("%s%s kind=%s %s\n",v.kind==kind&&w.kind==v.kind&&t1==t2?"REPRODUCED":"DIFFERENT",tr==t1?" identically":" (other trace)",v.kind.c_str(),v.detail.c_str()); return 1; }
  if(cmd!="search"){ fprintf(stderr,"usage: c09 replay FILE | search ...\n"); return 2; }
  std::map<std::string,std::string> A; for(int i=2;i+1<argc;i+=2) A[argv[i]]=argv[i+1]; uint64_t seed=strtoull(A["--seed"].c_str(),0,10); int wk=atoi(A["--worker"].c_str()),nw=std::max(1,atoi(A["--nworkers"].c_str())); long runs=atol(A["--runs"].c_str()); double wall=atof(A["--wall"].c_str()),t0=now();
  std::unordered_set<uint64_t> traces; std::vector<std::string> samples,viol; std::set<int> used; long unconfirmed=0;
  for(long k=wk;ST["runs"]<runs&&now()-t0<wall&&viol.empty();k+=nw){ Rng r(mix(seed*1000003+9)^mix(k+1)); Plan p=gen(r); uint64_t tr=0; counting=true; Verdict v=run(p,&tr); counting=false; ST["runs"]++; ST["calls"]+=p.nl; used.insert(p.mach); for(int i=0;i<p.na;i++) for(int j=0;j<p.a[i].nd;j++) ST[std::string("fault_text_")+dname[p.a[i].d[j].kind]]++;
    if((p.nl>1||p.na)&&traces.insert(tr).second) ST["distinct_nontrivial"]++; if(samples.size()<2) samples.push_back(text(p,Verdict(),tr));
    if(!v.bad&&k%97==0){ uint64_t t2; run(p,&t2); ST["determinism_reruns"]++; if(t2!=tr) ST["determinism_mismatches"]++; }
    if(v.bad){ uint64_t t1,t2; Verdict a=run(p,&t1),b=run(p,&t2); if(!a.bad||!b.bad||a.kind!=v.kind||t1!=t2||t1!=tr){ unconfirmed++; continue; } Plan m=minimise(p,v.kind,30); Verdict mv=run(m,&t1); if(!mv.bad){ m=p; mv=run(m,&t1); } char fn[400]; snprintf(fn,400,"%s/C09-seed%llu-w%d-%ld.replay",A["--out"].c_str(),(unsigned long long)seed,wk,k); { std::ofstream f(fn); f<<text(m,mv,t1); } viol.push_back(std::string(fn)+"\t"+mv.kind+"\t"+mv.detail); } }
  printf("{\"worker\":%d,\"exe\":\"c09\",\"wall\":%.1f,\"executions\":%ld,\"unconfirmed\":%ld,\"ops_usable\":%d,\"ops_used\":%zu,\"rule\":\"A case is one simulated history: 1-6 process lifetimes of an application that saves its state as text on a simulated disk, with kills, lost/torn/zeroed unsynced writes and damage at rest, and up to 24 archived records damaged and read back. Non-trivial if it had more than one lifetime or an archive; distinct if its trace hash (disk operations, states, outcomes) is new to the worker.\",\"stats\":{",wk,now()-t0,n_exec,unconfirmed,(int)NMACH,used.size());
  bool first=true; for(auto &x: ST){ printf("%s\"%s\":%ld",first?"":",",x.first.c_str(),x.second); first=false; } printf("},\"samples\":["); for(size_t i=0;i<samples.size();i++) printf("%s\"%s\"",i?",":"",jesc(samples[i]).c_str()); printf("],\"violations\":["); for(size_t i=0;i<viol.size();i++) printf("%s\"%s\"",i?",":"",jesc(viol[i]).c_str()); printf("]}\n"); return 0; }
