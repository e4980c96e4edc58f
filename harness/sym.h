// Harness API. In the symbolic build these are intercepted by the executor; in the native build native/runtime.cpp
// supplies concrete inputs (from a file) and evaluates the checks, which is how counterexamples are replayed.
#pragma once
#include <stddef.h>
extern "C" {
float sym_f32(const char* name, float lo, float hi);   // finite float in [lo,hi], never -0
float sym_f32_any(const char* name);                   // any bit pattern: NaN, inf, denormals, -0
int sym_int(const char* name, int lo, int hi);         // integer in [lo,hi], kept symbolic
int sym_choice(const char* name, int n);               // 0..n-1, explored exhaustively as separate paths
void sym_assume(bool c);
void chk(bool c, const char* id);
void chk_near(double a, double b, double tol, const char* id);   // |a-b| <= tol, NaN fails
void chk_same(float a, float b, const char* id);                 // a == b, or both NaN
void chk_range(float v, float lo, float hi, const char* id);     // lo <= v <= hi, NaN fails
void out(float v, const char* id);                               // recorded, for translator validation
}
#define ENTRY(name, shards) extern "C" int n_##name; int n_##name = shards; extern "C" void h_##name(int shard)
