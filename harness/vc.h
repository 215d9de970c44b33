// Contract harness vocabulary.  Under the VC generator these are intrinsics; with
// VC_NATIVE the same harness runs on the real machine code (replay / input search).
#pragma once
#include <cstdint>
#include <cstddef>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef __uint128_t u128v;
#ifdef VC_NATIVE
#include "vc_native.h"
#else
extern "C" {
u8 vc_u8(const char*); u16 vc_u16(const char*); u32 vc_u32(const char*); u64 vc_u64(const char*);
u64 vc_range(const char* name, u64 lo, u64 hi);      // symbolic, lo <= x <= hi
u64 vc_case(const char* name, u64 lo, u64 hi);       // complete case split, concrete in each case
u64 vc_split(u64 x, u64 lo, u64 hi);
void vc_assume(bool);                                 // precondition
void vc_assert(bool, const char* label);              // postcondition
void vc_require(bool, const char* label);             // callee precondition at a call site
void vc_inv(bool, const char* label);                 // loop invariant clause
bool vc_inv_assuming();
void vc_cover(const char* label);                     // must be reachable (vacuity guard)
void vc_unreachable(const char* label);
void* vc_array(const char* name, u64 count, u64 stride, const char* slots);
void vc_havoc(void*, u64 bytes);
void vc_havoc_region(void*, u64 stride, const char* slots);
u64 vc_uf1(const char*, u64); u64 vc_uf2(const char*, u64, u64);
u64 vc_uf3(const char*, u64, u64, u64); u64 vc_uf4(const char*, u64, u64, u64, u64);
void vc_define(bool, const char* what);
void vc_trust(bool, const char* what);
void vc_replace(const char* regex, void* fn);
void vc_loop(const char* regex, void* inv, int nacc);       // loop cut at its first symbolic branch
void vc_loop_now(const char* regex, void* inv, int nacc);   // loop cut on entry
void vc_print(const char*, u64); void vc_pc();
void vc_symstep();
void vc_interfere(const void* words);
void* vc_local(const char* fn_regex, const char* name);   // address of a local variable of an active function
void vc_abort_ok(bool* flag);                          // std::terminate acceptable exactly when *flag
u64 vc_ite(bool, u64, u64);
bool vc_concrete(u64);
}
#define VC_HARNESS(name) extern "C" void name()
#define VC_SYMBOLIC 1
#endif
