// Harness interface.  Under the symbolic executor these are intrinsics; the
// native build (replay.cpp) reads the same inputs from a file.
#pragma once
extern "C"
{
double vp_real(const char* name);
long vp_int(const char* name, long lo, long hi);
bool vp_bool(const char* name);
long vp_choice(const char* name, long n);
void vp_assume(bool c);
void vp_axiom(bool c);
void vp_check(bool c, const char* id);
void vp_check_eq(double a, double b, const char* id);
void vp_check_le(double a, double b, const char* id);
bool vp_eq(double a, double b);
void vp_lemma(bool c, const char* id);
void vp_fail(const char* id);
void vp_cover(const char* id);
double vp_abstract(double x);
void vp_end();
}
#define CASE extern "C" __attribute__((noinline, used)) void
