// Interface between a harness and the symbolic engine (engine/) or, in a
// native build, the replayer (sx_native.cpp). Every value obtained from
// sx_int/sx_u32/sx_u64 is symbolic under the engine.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
int      sx_int(int lo,int hi);       // any value in [lo,hi]
uint32_t sx_u32(void);                // any 32-bit value
uint64_t sx_u64(void);                // any 64-bit value
uint64_t sx_concretize(uint64_t);     // explore each feasible value on its own path
void     sx_assume(int cond);
void     sx_check(int cond,const char* label);   // the property
void     sx_fail(const char* label);
void     sx_observe(uint64_t v);      // compared between engine and native runs
void     sx_reach(const char* label); // reachability witness
int      sx_is_native(void);
// threads: spawned ones run between sx_spawn and sx_join_all; which of them
// runs is a symbolic choice at every mutex acquisition and thread end. All
// inputs have to be drawn before the first sx_spawn.
void     sx_spawn(void(*f)(void*),void* arg);
void     sx_join_all(void);
}
static inline int sx_choose(int n){ return (int)sx_concretize((uint64_t)(unsigned)sx_int(0,n-1)); }
static inline bool sx_bool(){ return sx_int(0,1)!=0; }
static inline int sx_any_int(){ return (int)sx_u32(); }
// SX_ENTRY: both tiers; SX_ENTRY_THOROUGH / SX_ENTRY_QUICK: that tier only.
#define SX_ENTRY(name) extern "C" void name()
#define SX_ENTRY_THOROUGH(name) extern "C" void name()
#define SX_ENTRY_QUICK(name) extern "C" void name()
#ifndef SX_THOROUGH
#define SX_THOROUGH 0
#endif
#define SX_T(quick,thorough) (SX_THOROUGH?(thorough):(quick))
