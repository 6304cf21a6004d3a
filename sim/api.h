// Interface between the operation catalogue (instrumented, contains the library) and the simulator.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <iosfwd>
typedef unsigned __int128 u128;
enum {
  F_SYN=1,      // synthesizable operator / integer / heap / table: no host facilities at all
  F_MPFR=2,     // uses GMP or MPFR
  F_HOST=4,     // may use the host heap (text, lists)
  F_NOENV=8,    // double or decimal-text based: result may depend on the FP environment by nature
  F_DEBUG=16,   // takes a DEBUG argument (o.debug)
  F_STREAM=32,  // writes to o.os
  F_RNG=64,     // draws from o's scripted generator
  F_SLOT=128,   // uses a long-lived object
  F_THROWS=256, // may legitimately throw
  F_SLOW=512,
  F_PARSE=1024, // reads text
  F_PRINTS=2048,// writes diagnostics to std::cerr on its own
};
struct Out {
  uint64_t h; uint32_t n; uint64_t w[8];
  uint32_t tl; char text[1024];
  int debug; int tid; std::ostream *os;
};
extern "C" void sim_put(Out*, uint64_t hi, uint64_t lo);
extern "C" void sim_text(Out*, const char*, size_t);
extern "C" void sim_flag(Out*, int why); // an oracle inside the catalogue saw a wrong answer
extern "C" void *sim_slot(Out*, int slot, size_t size, uint64_t tag, int *fresh); // storage of a long-lived object
struct SimThrow { int where; };   // what a scripted generator throws
// scripted generator: state lives in the simulator
struct Script { uint64_t kind, seed, pos, throw_at, last, thrown; };
extern "C" Script **sim_script(); // the calling thread's current script
extern "C" uint64_t sim_draw(Script*); // throws SimThrow
typedef void (*op_fn)(const u128*, Out&);
// sig: blank separated operand kinds: fE,F  iE,F  uW  nLO,HI  d s (double/float bits)  b (bytes: length word + words)  g (generator: kind,seed,throw_at)
typedef void (*reg_fn)(const char *name, const char *sig, op_fn, unsigned flags);
