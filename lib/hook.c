/* Linked into a private build of vctrs with -Wl,--wrap=<symbol>: every call the package makes into
   R that can allocate, fail or run R code goes through here. Controlled through the exported
   variables (set by hookctl.c):
     vh_mode  bit 0: raise an R error at point vh_k
              bit 1: collect garbage inside point vh_k (at every point if vh_k == 0)
     vh_n     number of points passed since it was last reset
     vh_exact allocate vectors as fenced blocks of exactly their size (AddressSanitizer builds) */
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <R_ext/Rallocators.h>
#include <R_ext/Altrep.h>
#include <stdlib.h>
#include <string.h>
#define PUB __attribute__((visibility("default")))
extern SEXP Rf_allocVector3(SEXPTYPE, R_xlen_t, R_allocator_t*);
extern void R_gc_torture(int, int, Rboolean);
PUB int vh_mode = 0, vh_k = 0, vh_n = 0, vh_exact = 0, vh_fired = 0, vh_tail = 512, vh_fill = 0x5a;
PUB int vh_busy = 0;
#define busy vh_busy

#ifdef VH_ASAN
extern void __asan_poison_memory_region(void const volatile*, size_t);
extern void __asan_unpoison_memory_region(void const volatile*, size_t);
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#else
#define POISON(p, n)
#endif

static void* ea(R_allocator_t* a, size_t n) { return malloc(n); }
static void ef(R_allocator_t* a, void* p) { free(p); }
static R_allocator_t exact_alloc = { ea, ef, NULL, NULL };
static size_t elt(SEXPTYPE t) {
  switch (t) {
  case LGLSXP: case INTSXP: return 4;
  case REALSXP: return 8; case CPLXSXP: return 16; case RAWSXP: return 1;
  case STRSXP: case VECSXP: return sizeof(SEXP);
  }
  return 0;
}
/* a vector in a block of its own: header and unused tail are out of bounds for the package's code */
PUB SEXP vh_alloc(SEXPTYPE t, R_xlen_t n) {
  size_t e = elt(t);
  if (!e) return Rf_allocVector(t, n);
  SEXP x;
  /* R takes vectors of length one from its own pages whatever the allocator */
  if (n == 1) { x = Rf_allocVector3(t, 2, &exact_alloc); SETLENGTH(x, 1); }
  else x = Rf_allocVector3(t, n, &exact_alloc);
  char* d = (char*) DATAPTR_RO(x);
  size_t used = e * (size_t) n, total = n == 1 ? 2 * e : used;
  total = (total + 7) / 8 * 8;
  POISON(x, d - (char*) x);
  if (total > used) POISON(d + used, total - used);
  if (t != VECSXP && t != STRSXP) memset(d, vh_fill, used);   /* uninitialised memory is never silently right */
  return x;
}
static SEXP exactify(SEXP x) { /* x: fresh, unshared vector of the package */
  if (!vh_exact || ALTREP(x) || !elt(TYPEOF(x)) || busy) return x;
  busy = 1;
  PROTECT(x);
  R_xlen_t n = Rf_xlength(x);
  SEXP y = PROTECT(vh_alloc(TYPEOF(x), n));
  switch (TYPEOF(x)) {
  case STRSXP: for (R_xlen_t i = 0; i < n; ++i) SET_STRING_ELT(y, i, STRING_ELT(x, i)); break;
  case VECSXP: for (R_xlen_t i = 0; i < n; ++i) SET_VECTOR_ELT(y, i, VECTOR_ELT(x, i)); break;
  default: memcpy((void*) DATAPTR_RO(y), DATAPTR_RO(x), elt(TYPEOF(x)) * n);
  }
  SHALLOW_DUPLICATE_ATTRIB(y, x);
  UNPROTECT(2);
  busy = 0;
  return y;
}

/* ---- the points */
/* reuse whatever the collection released: nodes are reused in the order in which they were allocated,
   so it takes as many as were allocated since the collection before */
static void junk(void) {
  static const int sz[] = { 8, 16, 32, 48, 64, 128 };
  for (int c = 0; c < 6; ++c)
    for (int i = 0; i < vh_tail; ++i) { SEXP r = Rf_allocVector(RAWSXP, sz[c]); memset(RAW(r), 0xa5, sz[c]); }
  /* cons cells share their pages with environments, closures, promises, ... */
  for (int i = 0; i < 8 * vh_tail; ++i) { SEXP r = Rf_allocSExp(LANGSXP); SETCAR(r, R_UnboundValue); }
}
static inline int enter(int can_fail) {
  if (busy || !vh_mode) { return 0; }
  if (vh_mode & 2) R_gc_torture(0, 0, FALSE);
  ++vh_n;
  int hit = vh_k == 0 || vh_n == vh_k;
  if (!hit) return 0;
  vh_fired = 1;
  if (vh_mode & 1) { vh_mode = 0; Rf_errorcall(R_NilValue, "injected failure"); }
  return (vh_mode & 2) != 0;
}
static inline void gc_on(void) { R_gc_torture(1, 1, FALSE); }
static inline void gc_one(void) { R_gc_torture(1 << 30, 1, FALSE); }
static inline void gc_off(void) { R_gc_torture(0, 0, FALSE); }
static SEXP after(SEXP r, int gc) { if (gc) { gc_off(); PROTECT(r); busy = 1; junk(); busy = 0; UNPROTECT(1); } return r; }

#define W1(NAME, T1, POST) extern SEXP __real_##NAME(T1); \
  PUB SEXP __wrap_##NAME(T1 a) { int gc = enter(1); if (gc) gc_on(); SEXP r = __real_##NAME(a); r = after(r, gc); POST; return r; }
#define W2(NAME, T1, T2, POST) extern SEXP __real_##NAME(T1, T2); \
  PUB SEXP __wrap_##NAME(T1 a, T2 b) { int gc = enter(1); if (gc) gc_on(); SEXP r = __real_##NAME(a, b); r = after(r, gc); POST; return r; }
#define W3(NAME, T1, T2, T3, POST) extern SEXP __real_##NAME(T1, T2, T3); \
  PUB SEXP __wrap_##NAME(T1 a, T2 b, T3 c) { int gc = enter(1); if (gc) gc_on(); SEXP r = __real_##NAME(a, b, c); r = after(r, gc); POST; return r; }
#define EX r = exactify(r)
#define EXN(o) if (r != (o)) r = exactify(r)

extern SEXP __real_Rf_allocVector(SEXPTYPE, R_xlen_t);
PUB SEXP __wrap_Rf_allocVector(SEXPTYPE t, R_xlen_t n) {
  int gc = enter(1); if (gc) gc_on();
  SEXP r = vh_exact && elt(t) ? vh_alloc(t, n) : __real_Rf_allocVector(t, n);
  return after(r, gc);
}
W2(Rf_allocArray, SEXPTYPE, SEXP, EX)
W1(Rf_allocSExp, SEXPTYPE, )
W2(Rf_cons, SEXP, SEXP, )
W2(Rf_lcons, SEXP, SEXP, )
W1(Rf_duplicate, SEXP, EXN(a))
W1(Rf_shallow_duplicate, SEXP, EXN(a))
W1(Rf_mkChar, const char*, )
W2(Rf_mkCharCE, const char*, cetype_t, )
W3(Rf_mkCharLenCE, const char*, int, cetype_t, )
W1(Rf_mkString, const char*, EX)
W2(Rf_mkNamed, SEXPTYPE, const char**, EX)
W1(Rf_ScalarInteger, int, EX)
/* TRUE, FALSE and NA are shared constants: never replaced */
W1(Rf_ScalarLogical, int, )
W1(Rf_ScalarReal, double, EX)
W1(Rf_ScalarString, SEXP, EX)
W2(Rf_coerceVector, SEXP, SEXPTYPE, EXN(a))
W2(Rf_lengthgets, SEXP, R_len_t, EXN(a))
W2(Rf_xlengthgets, SEXP, R_xlen_t, EXN(a))
W3(Rf_setAttrib, SEXP, SEXP, SEXP, )
W1(Rf_install, const char*, )
W1(Rf_installChar, SEXP, )
W1(Rf_lang1, SEXP, )
W2(Rf_lang2, SEXP, SEXP, )
W3(Rf_lang3, SEXP, SEXP, SEXP, )
W1(Rf_list1, SEXP, )
W2(Rf_list2, SEXP, SEXP, )
W3(R_NewEnv, SEXP, int, int, )
W3(R_MakeExternalPtr, void*, SEXP, SEXP, )
W3(R_new_altrep, R_altrep_class_t, SEXP, SEXP, )
W3(Rf_match, SEXP, SEXP, int, EX)
W1(Rf_asCharacterFactor, SEXP, EX)
W1(Rf_type2str, SEXPTYPE, )
extern SEXP __real_Rf_lang4(SEXP, SEXP, SEXP, SEXP);
PUB SEXP __wrap_Rf_lang4(SEXP a, SEXP b, SEXP c, SEXP d) { int gc = enter(1); if (gc) gc_on(); return after(__real_Rf_lang4(a, b, c, d), gc); }
extern void __real_Rf_copyMostAttrib(SEXP, SEXP);
PUB void __wrap_Rf_copyMostAttrib(SEXP a, SEXP b) { int gc = enter(1); if (gc) gc_on(); __real_Rf_copyMostAttrib(a, b); after(R_NilValue, gc); }
extern void __real_Rf_defineVar(SEXP, SEXP, SEXP);
PUB void __wrap_Rf_defineVar(SEXP a, SEXP b, SEXP c) { int gc = enter(1); if (gc) gc_on(); __real_Rf_defineVar(a, b, c); after(R_NilValue, gc); }

/* reading an attribute never fails for lack of memory except for compact row names: no error
   there, and a collection only where R itself allocates */
extern SEXP __real_Rf_getAttrib(SEXP, SEXP);
PUB SEXP __wrap_Rf_getAttrib(SEXP x, SEXP s) {
  if (busy || !(vh_mode & 2)) return __real_Rf_getAttrib(x, s);
  int gc = enter(0); if (gc) gc_on();
  return after(__real_Rf_getAttrib(x, s), gc);
}
/* evaluation: one collection at its first allocation and one when it is over */
extern SEXP __real_Rf_eval(SEXP, SEXP);
PUB SEXP __wrap_Rf_eval(SEXP e, SEXP rho) {
  int gc = enter(1);
  if (!gc) return __real_Rf_eval(e, rho);
  int m = vh_mode; 
  gc_one();
  SEXP r = __real_Rf_eval(e, rho);
  gc_off();
  if (vh_mode != m) return r;
  PROTECT(r);
  busy = 1; gc_one(); Rf_allocSExp(LISTSXP); gc_off(); busy = 0;
  UNPROTECT(1);
  return after(r, 1);
}
extern char* __real_R_alloc(size_t, int);
PUB char* __wrap_R_alloc(size_t n, int size) {
  int gc = enter(1); if (gc) gc_on();
  char* p;
  if (vh_exact && n > 0) {
    SEXP s = vh_alloc(RAWSXP, (R_xlen_t) n * size);
    /* what R_alloc() does: chained through the attribute slot on the transient stack */
    void* top = vmaxget();
    *(SEXP*) ((char*) s + 8) = top == NULL ? R_NilValue : (SEXP) top;
    vmaxset(s);
    p = (char*) DATAPTR_RO(s);
  } else p = __real_R_alloc(n, size);
  after(R_NilValue, gc);
  return p;
}
