/* native side of the harness interface: replays one recorded input vector */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "vp.h"
static FILE *fin;
static const char *next_token(void)
{
   static char b[200];
   if( !fin) { const char *f = getenv("VP_INPUTS"); fin = f ? fopen(f, "r") : NULL; }
   if( !fin || fscanf(fin, "%199s", b) != 1) return "0";
   return b;
}
extern "C" {
long vp_long(const char *, long lo, long hi)
{ long v = atol(next_token()); if( v < lo || v > hi) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(0); } return v; }
int vp_int(const char *n, long lo, long hi) { return (int)vp_long(n, lo, hi); }
int vp_choose(const char *n, long lo, long hi) { return (int)vp_long(n, lo, hi); }
int vp_rint(const char *n, long lo, long hi) { return (int)vp_long(n, lo, hi); }
double vp_double(const char *, double lo, double hi)
{ double v = strtod(next_token(), NULL); if( v < lo) v = lo; if( v > hi) v = hi; return v; }
char vp_char(const char *) { return (char)atol(next_token()); }
void vp_bytes(const char *, char *buf, long n) { for( long i = 0; i < n; i++) buf[i] = (char)atol(next_token()); }
void vp_bytes_in(const char *, char *buf, long n, int, int) { for( long i = 0; i < n; i++) buf[i] = (char)atol(next_token()); }
void vp_string(const char *, char *buf, long n) { for( long i = 0; i < n; i++) buf[i] = (char)atol(next_token()); buf[n] = 0; }
static int exit_ok = 0;
void vp_allow_exit(int x) { exit_ok = x; }
void vp_assume(int c) { if( !c) { printf("REPLAY-ASSUME\n"); fflush(stdout); _Exit(0); } }
void vp_assert(int c, const char *msg)
{ if( !c) { printf("REPLAY-VIOLATION %s\n", msg); fflush(stdout); _Exit(77); } }
void vp_assert_req(double a, double b, double tol, const char *msg)
{ double t = tol + 1e-9 * (1. + fabs(a) + fabs(b));
  if( !(fabs(a - b) <= t)) { printf("REPLAY-VIOLATION %s (%.17g vs %.17g)\n", msg, a, b); fflush(stdout); _Exit(77); } }
void vp_reach(const char *name) { printf("REPLAY-REACH %s\n", name); }
}
static int finished;
static void at_exit_check(void)
{ if( !finished && !exit_ok) { printf("REPLAY-VIOLATION exit() called by the code under test\n"); fflush(stdout); _Exit(78); } }
int main(void)
{
   atexit(at_exit_check);
   harness();
   finished = 1;
   printf("REPLAY-END\n");
   return 0;
}
