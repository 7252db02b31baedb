// Specification intrinsics.  Under the verifier they are symbolic; in a native replay they read a value table / search.
#pragma once
#include <cmath>
#include <string>
extern "C" {
double vc_real(const char* name);            // any real
bool   vc_bool(const char* name);            // any boolean
long   vc_int(const char* name);             // any integer
int    vc_choice(const char* name, int n);   // any of 0..n-1 (enumerated)
void   vc_assume(bool);                      // precondition / callee postcondition
void   vc_assert(bool, const char* label);   // obligation
void   vc_eq(double a, double b, const char* label);   // obligation a == b over the reals (replay: relative tolerance)
void   vc_le(double a, double b, const char* label);   // obligation a <= b over the reals (replay: relative tolerance)
double vc_real_in(const char* name, double lo, double hi);   // any real in [lo,hi]
long   vc_int_in(const char* name, long lo, long hi);        // any integer in [lo,hi]
bool   vc_finite(double);                    // neither nan nor inf
void   vc_cover(const char* label);          // the point must be reachable (guards against vacuity)
void   vc_stop();
void   vc_trig_add(double, double);          // lemma instance: addition theorems
void   vc_trig_half(double);                 // lemma instance: double angle
double vc_fun1(const char*, double);         // arbitrary function R->R
double vc_fun2(const char*, double, double);
double vc_funi(const char*, long);
double* vc_array(const char*, long n);
}
static inline double vc_range(const char* n, double lo, double hi) { return vc_real_in(n, lo, hi); }
#ifdef VC_NATIVE
static inline double vc_pos(const char* n) { double x = std::fabs(vc_real(n)); vc_assume(x > 0); return x; }
#else
static inline double vc_pos(const char* n) { double x = vc_real(n); vc_assume(x > 0); return x; }
#endif
#define VC_CONCAT_(a, b) a##b
#define VC_HARNESS(name) extern "C" __attribute__((noinline)) void vch_##name()
