// Harness interface shared by the symbolic run (engine builtins) and the native run (rt/native.cpp).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int sym_int(const char *name);            // any 32-bit value
long sym_long(const char *name);          // any 64-bit value
short sym_short(const char *name);
unsigned char sym_byte(const char *name);
int sym_bool(const char *name);
double sym_double(const char *name);      // any bit pattern
float sym_float(const char *name);
int sym_range(const char *name, int lo, int hi);  // any value in [lo,hi], symbolic
int sym_choice(const char *name, int n);          // every value in [0,n), one path each
long sym_concrete(long v);                        // split into one path per feasible value
void sym_assume(int c);
void sym_assert(int c, const char *label);
void sym_reach(const char *label);
void sym_observe(const char *label, long v);
long sym_heap_live(void);                         // number of live heap blocks
int sym_param(const char *name, int dflt);        // bound, set by the driver
void sym_quiet(int on);                           // decimal texts of symbolic numbers (error messages) become "#" in the symbolic run
void sym_thread(int k);                           // first thing thread k does; k = 0: the creator, before it starts the others (native schedule replay)
int sym_native(void);                             // 1 in the native replay
long symx_ite(int c, long a, long b);             // a or b without splitting the path
void symx_digits(unsigned long v, char *out, int n, int base); // the n digits of v, as values 0..base-1; v < base^n
#ifdef __cplusplus
}
#endif
