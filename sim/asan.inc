// Which memory is alive: the compiler announces every access and the life of every local and global object, the heaps below announce
// theirs, and an access by the library's code to memory that belongs to no live object ends the run. (Shadow memory, one byte per eight.)
#ifdef ASANRT
namespace {
const uintptr_t SH_OFF=0x7fff8000ull, SH_END=0x10007fff8000ull;
bool shadow_ok=false;
inline signed char *shadow(uintptr_t a){ return (signed char*)((a>>3)+SH_OFF); }
void shadow_map(){ if(shadow_ok) return; void *p=mmap((void*)SH_OFF,SH_END-SH_OFF,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)SH_OFF){ static const char m[]="no room for the shadow memory\n"; (void)!write(2,m,sizeof m-1); _exit(97); } madvise(p,SH_END-SH_OFF,MADV_DONTDUMP); shadow_ok=true; }
void mem_dead(void *p,size_t n,int why){ if(!shadow_ok) return; uintptr_t a=((uintptr_t)p+7)&~7ull, b=((uintptr_t)p+n+7)&~7ull; if(b>a) memset(shadow(a),why,(b-a)>>3); }
void mem_live(void *p,size_t n){ if(!shadow_ok) return; uintptr_t a=(uintptr_t)p&~7ull, b=(uintptr_t)p+n; memset(shadow(a),0,(b-a)>>3); if(b&7) *shadow(b)=b&7; }
__attribute__((noinline)) void dead_access(uintptr_t a,size_t n,int w,int why,uintptr_t pc){
  const char *s= why==1?"the stack of a function that has returned":"memory between objects";
  switch(why&0xff){ case 0xf8: s="a local variable or temporary whose scope has ended"; break; case 0xf1: case 0xf2: case 0xf3: s="the stack beyond a local variable"; break; case 0xfa: s="the heap beyond a block"; break; case 0xfd: s="a heap block that was released"; break; case 0xf9: s="memory beyond a global variable"; break; case 0xca: case 0xcb: s="the stack beyond a variable-length array"; break; }
  char b[190]; snprintf(b,sizeof b,"memory not alive: %zu byte(s) %s in %s [pc %lx]",n,w?"written":"read",s,(unsigned long)pc); burst_left_domain(); fatal(FT_DEAD,b); }
inline void chk(uintptr_t a,size_t n,int w,uintptr_t frame,uintptr_t pc){
  Thr *t=self; if(__builtin_expect(!t||!t->active,0)) return;
  if(a<frame&&a>=t->lo&&n) dead_access(a,n,w,1,pc);
  uintptr_t e=a+n-1; for(uintptr_t g=a&~7ull;g<=e;g+=8){ int s=*shadow(g); if(__builtin_expect(s!=0,0)){ uintptr_t last= e<g+7?e:g+7; if(s<0||(int)(last&7)>=s){ int why=s; if(s>0){ why=*shadow(g+8); if(why>=0) why=0xf2; } dead_access(a,n,w,why,pc); } } } }
#define FR (uintptr_t)__builtin_frame_address(0)
#define PC (uintptr_t)__builtin_return_address(0)
inline void stack_alive(){ if(!shadow_ok) return; uintptr_t sp=(uintptr_t)__builtin_frame_address(0), lo=(uintptr_t)stack_base[0], hi=lo+STK*MAXTHR, top; if(lo&&sp>=lo&&sp<hi) top=lo+((sp-lo)/STK+1)*STK; else { top=sp+(1<<20); if((uintptr_t)environ>sp&&(uintptr_t)environ<top) top=(uintptr_t)environ; } sp&=~7ull; memset(shadow(sp),0,(top-sp)>>3); }
struct AsanGlobal { uintptr_t beg,size,size_rz; const char *name,*mod; uintptr_t dyn; void *loc; uintptr_t odr; };
}
extern "C" {
#define ACC(n) __attribute__((noinline)) void __asan_load##n(uintptr_t a){ chk(a,n,0,FR,PC); } __attribute__((noinline)) void __asan_store##n(uintptr_t a){ chk(a,n,1,FR,PC); } \
  __attribute__((noinline)) void __asan_report_load##n(uintptr_t a){ Thr *t=self; if(t&&t->active) dead_access(a,n,0,*shadow(a),PC); } __attribute__((noinline)) void __asan_report_store##n(uintptr_t a){ Thr *t=self; if(t&&t->active) dead_access(a,n,1,*shadow(a),PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
__attribute__((noinline)) void __asan_loadN(uintptr_t a,size_t n){ if(n) chk(a,n,0,FR,PC); } __attribute__((noinline)) void __asan_storeN(uintptr_t a,size_t n){ if(n) chk(a,n,1,FR,PC); }
void __asan_report_load_n(uintptr_t a,size_t n){ __asan_loadN(a,n); } void __asan_report_store_n(uintptr_t a,size_t n){ __asan_storeN(a,n); }
void *simx_memcpy(void *d,const void *s,size_t n){ ext(2); if(n){ chk((uintptr_t)s,n,0,FR,PC); chk((uintptr_t)d,n,1,FR,PC); } return memcpy(d,s,n); }
void *simx_memmove(void *d,const void *s,size_t n){ ext(2); if(n){ chk((uintptr_t)s,n,0,FR,PC); chk((uintptr_t)d,n,1,FR,PC); } return memmove(d,s,n); }
void *simx_memset(void *d,int c,size_t n){ ext(2); if(n) chk((uintptr_t)d,n,1,FR,PC); return memset(d,c,n); }
void __asan_init(){ shadow_map(); } void __asan_version_mismatch_check_v8(){}
int __asan_option_detect_stack_use_after_return=0;
void __asan_before_dynamic_init(const char*){} void __asan_after_dynamic_init(){}
void __asan_register_globals(AsanGlobal *g,uintptr_t n){ shadow_map(); for(uintptr_t i=0;i<n;i++){ uintptr_t b=g[i].beg,e=b+g[i].size,z=b+g[i].size_rz; mem_dead((void*)e,z-e,0xf9); if(e&7) *shadow(e)=e&7; } }
void __asan_unregister_globals(AsanGlobal *,uintptr_t){}
void __asan_poison_stack_memory(uintptr_t a,size_t n){ memset(shadow(a),0xf8,(n+7)>>3); }
void __asan_unpoison_stack_memory(uintptr_t a,size_t n){ mem_live((void*)a,n); }
void __asan_alloca_poison(uintptr_t a,uintptr_t n){ memset(shadow(a-32),0xca,4); uintptr_t e=a+n, p=(e+31)&~31ull; mem_dead((void*)e,p-e,0xcb); if(e&7) *shadow(e)=e&7; memset(shadow(p),0xcb,4); }
void __asan_allocas_unpoison(uintptr_t top,uintptr_t bottom){ if(top&&top<bottom) memset(shadow(top),0,(bottom-top)>>3); }
void __asan_handle_no_return(){ stack_alive(); }
// an exception leaves frames without passing through their ends
void __cxa_throw(void *o,void *ti,void (*d)(void*)){ stack_alive(); static void (*f)(void*,void*,void(*)(void*)) __attribute__((noreturn))=0; if(!f) *(void**)&f=dlsym(RTLD_NEXT,"__cxa_throw"); f(o,ti,d); }
void __cxa_rethrow(){ stack_alive(); static void (*f)() __attribute__((noreturn))=0; if(!f) *(void**)&f=dlsym(RTLD_NEXT,"__cxa_rethrow"); f(); }
}
#else
namespace { inline void mem_dead(void*,size_t,int){} inline void mem_live(void*,size_t){} }
#endif
