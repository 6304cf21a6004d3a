// Simulator runtime: plan data structures and what a simulated child reports back.
#pragma once
#include "api.h"
#include <string>
#include <vector>
enum KindT { K_F, K_I, K_P, K_U, K_N, K_D, K_S, K_B, K_G };
struct Kind { KindT k; int a, b; int words() const { return k==K_B ? 1+(a+15)/16 : k==K_G ? 3 : 1; } };
struct OpInfo { std::string name; std::vector<Kind> sig; op_fn fn; unsigned flags; int words; };
extern std::vector<OpInfo> g_ops;
void rt_register_all();
// per-event attributes, all 0 = "as in the golden run"
enum Attr { A_DEBUG, A_MXCSR, A_X87, A_PREC, A_RND, A_RANGE, A_MPFLAGS, A_FAILK, A_FAILMODE, A_GSET, A_FMT, A_FILL, A_SPREC, A_LOC, A_SFAULT, A_SPOS, A_SEXC,
  A_CFAULT, A_CPOS, A_CEXC, A_GLOC, A_STACK, A_HEAP, A_BURST, A_TRIPLE, A_PHASE, A_KEEP, A_ERRNO, A_UNWIND, A_SPRE, A_N };
extern const char *attr_name[A_N];
// whole-plan parameters
enum Par { P_QUANTUM, P_MODE, P_ORDER, P_SEED, P_NTHREADS, P_LIMIT, P_NORESTORE, P_LIFE, P_ENV, P_N };
extern const char *par_name[P_N];
enum { MAXW=12, MAXEV=200, MAXTHR=48, MAXSW=4096, MAXREC=1500 };
struct Event { int id, op, tid, parent; int64_t pstep; u128 w[MAXW]; int64_t a[A_N]; };
struct Sw { int ev; int64_t step; int next; };
struct Plan { std::string prop; int64_t p[P_N]={0}; std::vector<Event> ev; std::vector<Sw> sw; };
// result of one event
enum Status { ST_NONE=0, ST_OK=1, ST_STDEXC=2, ST_BADALLOC=3, ST_SIMTHROW=4, ST_OTHER=5, ST_STARTED=6, ST_IOFAIL=7 };
struct Res {
  int32_t status, flagged; uint64_t exc; uint64_t h; uint32_t n; uint64_t w[8]; uint32_t tl; char text[1024];
  uint32_t sl; uint32_t sstate; uint32_t scut; int64_t fmtdiff; uint64_t again; char stext[1600];   // what arrived at the op's output stream, and the stream afterwards
  uint32_t envdiff; uint32_t env0, env1; int32_t mpdiff; int64_t gleak; int32_t gerr; int32_t ngsite, reported; uint64_t gsite[8]; int64_t hcalls, hleak, hleak2, hgrow; int64_t newcalls; int32_t fails; int32_t argdiff;
  int64_t steps;
};
struct Rec { int32_t step; uint32_t addr; uint8_t write, kind; };   // kind: 0 global, 1 other, 2 ext, 3 guard
struct Shared {
  volatile int32_t fatal; int32_t fatal_ev; char msg[200]; int32_t harness;
  uint64_t trace; int64_t steps; int32_t nsw, nint, nblock, nend, nhand; int32_t race, race_ev[2], race_w[2]; uint32_t race_addr; int32_t nrec; Rec rec[MAXREC]; int32_t nrec2; Rec rec2[MAXREC]; int64_t steps2;
  Res r[MAXEV]; Res second;
};
enum Fatal { FT_NONE=0, FT_DEADLOCK=1, FT_RUNAWAY=2, FT_ASSERT=3, FT_EXIT=4, FT_TERMINATE=5, FT_DEAD=6 };
// executes a plan in the current (freshly forked) process and never returns
struct ExecOpt { bool golden=false; bool twice=false; bool probe=false; bool batch=false; /*several calls of one operation in one process, nothing recorded*/ /*several calls of one operation: which library state do the later ones change?*/ int init_mode=0; /*0: initialisers already run, 1: run in order P_ORDER with phases*/ };
// plan handed from the controller to the zygote through shared memory
struct Flat { char prop[8]; int64_t p[P_N]; int32_t nev, nsw; ExecOpt opt; Event ev[MAXEV]; Sw sw[MAXSW]; };
uint64_t outcome_hash(uint64_t h,uint32_t n,int st,uint64_t exc,const char *text,uint32_t tl);
[[noreturn]] void rt_exec(const Plan &p, Shared *sh, const ExecOpt &o);
void rt_setup();            // once per zygote: arenas, locale objects, memory functions
void rt_run_inits();        // catalogue initialisers in link order
int  rt_ninits();
void rt_load_data(const char *file); // the library's own variables: 'address size name' per line; addresses below 64K are offsets in the thread-local block
extern bool g_instrumented;
inline uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
struct Rng { uint64_t s; explicit Rng(uint64_t x):s(x){} uint64_t next(){ s+=0x9E3779B97F4A7C15ull; return mix(s); } uint64_t below(uint64_t n){ return n? next()%n:0; } bool chance(int num,int den){ return below(den)<(uint64_t)num; } int64_t range(int64_t a,int64_t b){ return a+(int64_t)below(b-a+1); } };
void mutate_words(const OpInfo &op, u128 *w, Rng &r);
u128 rand_operand(const Kind &k, Rng &r, int sub);
void gen_words(const OpInfo &op, u128 *w, Rng &r);
