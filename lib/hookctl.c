/* Control of the points in a private build of vctrs (hook.c), loaded next to it. */
#define R_NO_REMAP
#include <R.h>
#include <Rinternals.h>
#include <dlfcn.h>
#include <string.h>
extern void R_gc_torture(int, int, Rboolean);
static int *busy, *mode, *k, *n, *exact, *fired, *tail, *fill;
static SEXP (*xalloc)(SEXPTYPE, R_xlen_t);
SEXP vhc_open(SEXP path) {
  void* h = dlopen(CHAR(STRING_ELT(path, 0)), RTLD_NOW | RTLD_NOLOAD);
  if (!h) Rf_error("vctrs.so is not loaded: %s", dlerror());
  mode = dlsym(h, "vh_mode"); k = dlsym(h, "vh_k"); n = dlsym(h, "vh_n"); exact = dlsym(h, "vh_exact");
  fired = dlsym(h, "vh_fired"); tail = dlsym(h, "vh_tail"); fill = dlsym(h, "vh_fill"); busy = dlsym(h, "vh_busy"); xalloc = dlsym(h, "vh_alloc");
  if (!mode || !k || !n || !exact || !xalloc || !fired) Rf_error("this build of vctrs has no points");
  return R_NilValue;
}
/* arm: (mode, k) */
SEXP vhc_arm(SEXP m, SEXP kk) {
  int mm = Rf_asInteger(m);
  R_gc_torture(0, 0, FALSE);
  *busy = 0; *n = 0; *fired = 0; *k = Rf_asInteger(kk); *mode = mm;
  return R_NilValue;
}
SEXP vhc_disarm(void) { *mode = 0; *busy = 0; R_gc_torture(0, 0, FALSE); SEXP r = Rf_allocVector(INTSXP, 2); INTEGER(r)[0] = *n; INTEGER(r)[1] = *fired; return r; }
SEXP vhc_exact(SEXP on) { *exact = Rf_asInteger(on); return R_NilValue; }
SEXP vhc_tail(SEXP on) { *tail = Rf_asInteger(on); return R_NilValue; }
SEXP vhc_fill(SEXP on) { *fill = Rf_asInteger(on); return R_NilValue; }
/* a deep copy in which every vector has a block of its own */
static SEXP deep(SEXP x);
static void attrs(SEXP y, SEXP x) {
  if (ATTRIB(x) == R_NilValue) return;
  SEXP a = PROTECT(Rf_shallow_duplicate(ATTRIB(x)));
  for (SEXP p = a; p != R_NilValue; p = CDR(p)) SETCAR(p, deep(CAR(p)));
  SET_ATTRIB(y, a); SET_OBJECT(y, OBJECT(x)); if (IS_S4_OBJECT(x)) SET_S4_OBJECT(y);
  UNPROTECT(1);
}
static SEXP deep(SEXP x) {
  SEXPTYPE t = TYPEOF(x); R_xlen_t len; SEXP y; size_t e = 0;
  switch (t) {
  case LGLSXP: case INTSXP: e = 4; break; case REALSXP: e = 8; break; case CPLXSXP: e = 16; break; case RAWSXP: e = 1; break;
  case STRSXP: case VECSXP: break;
  default: return x;
  }
  PROTECT(x);
  len = Rf_xlength(x);
  y = PROTECT(xalloc(t, len));
  if (t == STRSXP) for (R_xlen_t i = 0; i < len; ++i) SET_STRING_ELT(y, i, STRING_ELT(x, i));
  else if (t == VECSXP) for (R_xlen_t i = 0; i < len; ++i) SET_VECTOR_ELT(y, i, deep(VECTOR_ELT(x, i)));
  else memcpy((void*) DATAPTR_RO(y), DATAPTR_RO(x), e * len);
  attrs(y, x);
  UNPROTECT(2);
  return y;
}
SEXP vhc_deep(SEXP x) { return deep(x); }
