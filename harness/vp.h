/* Harness API. Under the symbolic executor these are intrinsics; natively
   (vp_native.cpp) they read the recorded inputs and check the same assertions. */
#ifndef VP_H
#define VP_H
#ifdef __cplusplus
extern "C" {
#endif
double vp_double(const char *name, double lo, double hi);   /* any double in [lo,hi] */
float  vp_float(const char *name, double lo, double hi);
int    vp_int(const char *name, int lo, int hi);            /* any int in [lo,hi], symbolic */
int    vp_choice(const char *name, int lo, int hi);         /* every int in [lo,hi], one path each */
void   vp_assume(int c);
void   vp_assert(int c, const char *label);
void   vp_close(double a, double b, double tol, const char *label); /* |a-b| <= tol */
void   vp_same(double a, double b, const char *label);      /* identical value */
void   vp_observe(const char *name, double v);
void   vp_reach(const char *label);
int    vp_param(int i);
int    vp_isfinite(double d);
int    vp_heap_objects(void);
void   vp_print(const char *name, double v);
long   vp_deadline(int which);                              /* last timed wait: 0 seconds, 1 nanoseconds of its deadline, 2 microseconds of the clock when it was asked for */
void   vp_log_point(double x);                              /* axiom points for logarithms */
void   vp_race_exempt(void *p, int n);                      /* not considered by the data-race check */
void   vp_main(void);
#ifdef __cplusplus
}
#endif
#endif
