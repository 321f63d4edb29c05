/* harness interface, common to CBMC, the IR executor and native replay */
#ifndef VP_H
#define VP_H
#ifdef __cplusplus
extern "C" {
#endif
long vp_long(const char *name, long lo, long hi);
int vp_int(const char *name, long lo, long hi);
int vp_choose(const char *name, long lo, long hi);
int vp_rint(const char *name, long lo, long hi);
double vp_double(const char *name, double lo, double hi);
char vp_char(const char *name);
void vp_bytes(const char *name, char *buf, long n);
void vp_bytes_in(const char *name, char *buf, long n, int lo, int hi);
void vp_string(const char *name, char *buf, long n);
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_assert_req(double a, double b, double tol, const char *msg);
void vp_reach(const char *name);
void vp_allow_exit(int x);
void harness(void);
#ifdef __cplusplus
}
#endif
#endif
