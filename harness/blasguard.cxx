// BLAS and LAPACK are not instrumented: the memory their arguments name is checked here before they run.
// A poisoned byte in it is touched, so that AddressSanitizer reports the access with its stack.
#include <cctype>
#include <cstddef>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <sanitizer/asan_interface.h>

__attribute__((noinline)) static void at(const void* p, size_t bytes, bool write) {
  if(!bytes || !p) return;
  void* bad = __asan_region_is_poisoned(const_cast<void*>(p), bytes);
  if(!bad) return;
  volatile char* c = (volatile char*)bad;
  if(write) *c = *c; else (void)*c;
}
template <class T> static void vec(const T* x, long n, long inc, bool w) {
  if(n <= 0) return;
  if(inc < 0) inc = -inc;
  if(inc == 1) return at(x, n * sizeof(T), w);
  at(x, sizeof(T), w);
  at(x + (n - 1) * inc, sizeof(T), w);
}
template <class T> static void mat(const T* a, long m, long n, long ld, bool w) {
  if(m <= 0 || n <= 0) return;
  if(ld == m) return at(a, m * n * sizeof(T), w);
  for(long j = 0; j < n; ++j) at(a + j * ld, m * sizeof(T), w);
}
template <class T> static void tri(const T* a, char uplo, long n, long ld, bool w) {
  for(long j = 0; j < n; ++j) if(toupper(uplo) == 'U') at(a + j * ld, (j + 1) * sizeof(T), w); else at(a + j * ld + j, (n - j) * sizeof(T), w);
}
static bool no(char t) { return toupper(t) == 'N'; }
static void* next(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if(!p) { fprintf(stderr, "no %s\n", n); abort(); }
  return p;
}
#define REAL(name) static auto real = (decltype(&name))next(#name)
extern "C" {
#define GEMM(name, T)                                                                                                              \
  void name(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* A, const int* lda,     \
            const T* B, const int* ldb, const T* be, T* C, const int* ldc, size_t l1, size_t l2) {                                 \
    REAL(name);                                                                                                                    \
    if(*m > 0 && *n > 0) {                                                                                                         \
      if(*k > 0 && *al != 0) {                                                                                                     \
        no(*ta) ? mat(A, *m, *k, *lda, false) : mat(A, *k, *m, *lda, false);                                                       \
        no(*tb) ? mat(B, *k, *n, *ldb, false) : mat(B, *n, *k, *ldb, false);                                                       \
      }                                                                                                                            \
      mat(C, *m, *n, *ldc, true);                                                                                                  \
    }                                                                                                                              \
    real(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc, l1, l2);                                                                 \
  }
GEMM(dgemm_, double)
GEMM(sgemm_, float)
#define TWO(P, T)                                                                                                                                          \
  void P##axpy_(const int* n, const T* a, const T* x, const int* ix, T* y, const int* iy) { REAL(P##axpy_); vec(x, *n, *ix, false); vec(y, *n, *iy, true); real(n, a, x, ix, y, iy); } \
  void P##copy_(const int* n, const T* x, const int* ix, T* y, const int* iy) { REAL(P##copy_); vec(x, *n, *ix, false); vec(y, *n, *iy, true); real(n, x, ix, y, iy); }                  \
  void P##swap_(const int* n, T* x, const int* ix, T* y, const int* iy) { REAL(P##swap_); vec(x, *n, *ix, true); vec(y, *n, *iy, true); real(n, x, ix, y, iy); }                          \
  void P##scal_(const int* n, const T* a, T* x, const int* ix) { REAL(P##scal_); vec(x, *n, *ix, true); real(n, a, x, ix); }                                                                \
  T P##dot_(const int* n, const T* x, const int* ix, const T* y, const int* iy) { REAL(P##dot_); vec(x, *n, *ix, false); vec(y, *n, *iy, false); return real(n, x, ix, y, iy); }           \
  T P##nrm2_(const int* n, const T* x, const int* ix) { REAL(P##nrm2_); vec(x, *n, *ix, false); return real(n, x, ix); }                                                                    \
  int i##P##amax_(const int* n, const T* x, const int* ix) { REAL(i##P##amax_); vec(x, *n, *ix, false); return real(n, x, ix); }                                                            \
  void P##trsm_(const char* sd, const char* up, const char* tr, const char* dg, const int* m, const int* n, const T* al, const T* A, const int* lda, T* B, const int* ldb, size_t a, size_t b, size_t c, size_t d) { \
    REAL(P##trsm_);                                                                                                                                         \
    if(*m > 0 && *n > 0) { tri(A, *up, toupper(*sd) == 'L' ? *m : *n, *lda, false); mat(B, *m, *n, *ldb, true); }                                          \
    real(sd, up, tr, dg, m, n, al, A, lda, B, ldb, a, b, c, d);                                                                                             \
  }                                                                                                                                                         \
  void P##potrf_(const char* up, const int* n, T* A, const int* lda, int* info, size_t a) { REAL(P##potrf_); tri(A, *up, *n, *lda, true); real(up, n, A, lda, info, a); } \
  void P##syev_(const char* jz, const char* up, const int* n, T* A, const int* lda, T* W, T* wk, const int* lw, int* info, size_t a, size_t b) {             \
    REAL(P##syev_);                                                                                                                                         \
    if(*lw != -1) {                                                                                                                                         \
      if(no(*jz)) tri(A, *up, *n, *lda, true); else mat(A, *n, *n, *lda, true);                                                                             \
      vec(W, *n, 1, true);                                                                                                                                  \
      vec(wk, *lw, 1, true);                                                                                                                                \
    }                                                                                                                                                       \
    real(jz, up, n, A, lda, W, wk, lw, info, a, b);                                                                                                         \
  }                                                                                                                                                         \
  void P##lacpy_(const char* up, const int* m, const int* n, const T* A, const int* lda, T* B, const int* ldb, size_t a) {                                   \
    REAL(P##lacpy_);                                                                                                                                        \
    if(toupper(*up) != 'U' && toupper(*up) != 'L') { mat(A, *m, *n, *lda, false); mat(B, *m, *n, *ldb, true); }                                            \
    real(up, m, n, A, lda, B, ldb, a);                                                                                                                      \
  }
TWO(d, double)
TWO(s, float)
}
