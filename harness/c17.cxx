// C17: integral transformations
#include "ref.hpp"
#include "padded.hpp"
#include <macis/util/transform.hpp>
using pbt::Src;
using ref::Ints;

static std::vector<double> gen_c(Src& S, int n, int m) {
  std::vector<double> C(n * m, 0.);
  int mode = (int)S.below(6);
  pbt::Bulk b{S.seed()};
  if(mode == 0) for(int i = 0; i < std::min(n, m); ++i) C[i + n * i] = 1;
  else if(mode == 1) { auto p = S.perm(n); for(int j = 0; j < m; ++j) C[p[j % n] + n * j] = b.u(j) & 1 ? 1 : -1; }
  else if(mode == 2) { int j = (int)S.below(m); for(int i = 0; i < n; ++i) C[i + n * j] = b.sym(i); }
  else if(mode == 3 && m <= n) { auto Q = ref::orthogonal(b, n); std::copy(Q.begin(), Q.begin() + n * m, C.begin()); }
  else for(int i = 0; i < n * m; ++i) C[i] = mode == 4 ? (double)((int)(b.u(i) % 5) - 2) : b.sym(i);
  S.label("matrix" + std::to_string(mode));
  double s = S.coin(1, 4) ? S.oneof({0x1p-30, 0x1p-60, 0x1p10}) : 1.;
  for(auto& x : C) x *= s;
  return C;
}
static bool ident(const std::vector<double>& C, int n) {
  for(size_t i = 0; i < C.size(); ++i) if((C[i] != 0) != (i % n == i / n)) return false;
  return true;
}
// tensors without any symmetry
static Ints gen_any0(Src& S, int n) {
  Ints I(n);
  int mode = (int)S.below(4);
  pbt::Bulk b{S.seed()};
  if(mode == 0) { I.T[S.below(I.T.size())] = 1; I.V[S.below(I.V.size())] = 1; return I; }
  if(mode == 1) { I = ref::gen_ints(S, n); return I; }
  for(size_t i = 0; i < I.T.size(); ++i) I.T[i] = mode == 2 ? (double)((int)(b.u(i) % 7) - 3) : b.sym(i);
  for(size_t i = 0; i < I.V.size(); ++i) I.V[i] = mode == 2 ? (double)((int)(b.u(i + 100000) % 7) - 3) : b.sym(i + 100000);
  return I;
}
static Ints gen_any(Src& S, int n) {
  auto I = gen_any0(S, n);
  return ref::scaled(I, ref::gen_scale(S));
}
static Ints absd(Ints I) { for(auto& x : I.T) x = std::fabs(x); for(auto& x : I.V) x = std::fabs(x); return I; }
static std::vector<double> absd(std::vector<double> v) { for(auto& x : v) x = std::fabs(x); return v; }

static void cmp(const std::vector<double>& got, const std::vector<double>& want, const std::vector<double>& bound, int m, const char* what) {
  for(size_t i = 0; i < want.size(); ++i)
    REQ(std::fabs(got[i] - want[i]) <= 1e-13 * (1e-300 + bound[i]) * 20, "%s: element %zu (new dimension %d): %.15g want %.15g", what, i, m, got[i], want[i]);
}

static void two_index_case(Src& S, int hi) {
  int n = (int)S.edgy(1, hi), m = (int)S.edgy(1, hi);
  Ints I = hi > 9 ? Ints(n) : gen_any(S, n);
  if(hi > 9) { pbt::Bulk b{S.seed()}; double s = ref::gen_scale(S); for(size_t i = 0; i < I.T.size(); ++i) I.T[i] = s * b.sym(i); }
  std::fill(I.V.begin(), I.V.end(), 0.);
  auto C = gen_c(S, n, m);
  size_t px = S.below(3), pc = S.below(3), py = S.below(3);
  S.note("old=%d new=%d padding=%zu,%zu,%zu", n, m, px, pc, py);
  if(n > 1 && m > 1 && C.size() && !ident(C, n)) S.nontrivial();
  if(px + pc + py) S.label("padded");
  auto X = pin(2, n, px, I.T);
  std::vector<double> Cp((n + pc) * m, NAN);
  for(int j = 0; j < m; ++j) for(int i = 0; i < n; ++i) Cp[i + (n + pc) * j] = C[i + n * j];
  auto Y = pout(2, m, py);
  auto Xc = X.a; auto Cc = Cp;
  macis::two_index_transform(n, m, X.data(), X.ld, Cp.data(), n + pc, Y.data(), Y.ld);
  auto W = ref::transform(I, C, m), B = ref::transform(absd(I), absd(C), m);
  cmp(Y.logical(), W.T, B.T, m, "two-index");
  REQ(Y.touched() == 0, "%zu padding elements of the result were written", Y.touched());
  REQ(!memcmp(X.a.data(), Xc.data(), Xc.size() * 8) && !memcmp(Cp.data(), Cc.data(), Cc.size() * 8), "an input was changed");
}

PBT(two_index, 6000, 200000, "two or more old and new orbitals, matrix not the identity") { two_index_case(S, 9); }
PBT(two_index_large, 60, 1500, "two or more old and new orbitals, matrix not the identity; up to 40") { two_index_case(S, 40); }

static void four_index_case(Src& S, int hi) {
  int n = (int)S.edgy(1, hi), m = (int)S.edgy(1, hi);
  auto I = gen_any(S, n);
  auto C = gen_c(S, n, m);
  size_t px = S.coin() ? 0 : S.below(3), pc = S.below(3), py = S.coin() ? 0 : S.below(3);
  S.note("old=%d new=%d padding=%zu,%zu,%zu", n, m, px, pc, py);
  if(n > 1 && m > 1 && C.size() && !ident(C, n)) S.nontrivial();
  if(px + py) S.label("padded");
  auto X = pin(4, n, px, I.V);
  std::vector<double> Cp((n + pc) * m, NAN);
  for(int j = 0; j < m; ++j) for(int i = 0; i < n; ++i) Cp[i + (n + pc) * j] = C[i + n * j];
  auto Y = pout(4, m, py);
  auto Xc = X.a; auto Cc = Cp;
  macis::four_index_transform(n, m, X.data(), X.ld, Cp.data(), n + pc, Y.data(), Y.ld);
  auto W = ref::transform(I, C, m), B = ref::transform(absd(I), absd(C), m);
  cmp(Y.logical(), W.V, B.V, m, "four-index");
  REQ(Y.touched() == 0, "%zu padding elements of the result were written", Y.touched());
  REQ(!memcmp(X.a.data(), Xc.data(), Xc.size() * 8) && !memcmp(Cp.data(), Cc.data(), Cc.size() * 8), "an input was changed");
}

PBT(four_index, 4000, 60000, "two or more old and new orbitals, matrix not the identity") { four_index_case(S, 5); }
PBT(four_index_large, 40, 600, "two or more old and new orbitals, matrix not the identity; up to 20") { four_index_case(S, 20); }

// the library rotates integrals in place
PBT(in_place, 2000, 40000, "two or more orbitals, matrix not the identity") {
  int n = (int)S.edgy(1, 5);
  auto I = gen_any(S, n);
  auto C = gen_c(S, n, n);
  S.note("n=%d", n);
  if(n > 1 && C.size() && !ident(C, n)) S.nontrivial();
  auto T = I.T, V = I.V;
  macis::two_index_transform(n, n, T.data(), n, C.data(), n, T.data(), n);
  macis::four_index_transform(n, n, V.data(), n, C.data(), n, V.data(), n);
  auto W = ref::transform(I, C, n), B = ref::transform(absd(I), absd(C), n);
  cmp(T, W.T, B.T, n, "two-index in place");
  cmp(V, W.V, B.V, n, "four-index in place");
}

PBT(composition, 2000, 40000, "two or more orbitals in each of the three bases") {
  int n = (int)S.edgy(1, 4), m = (int)S.edgy(1, 4), k = (int)S.edgy(1, 4);
  auto I = gen_any(S, n);
  auto C = gen_c(S, n, m), D = gen_c(S, m, k);
  S.note("%d -> %d -> %d", n, m, k);
  if(n > 1 && m > 1 && k > 1) S.nontrivial();
  std::vector<double> E(n * k, 0.);
  for(int i = 0; i < n; ++i) for(int j = 0; j < k; ++j) for(int l = 0; l < m; ++l) E[i + n * j] += C[i + n * l] * D[l + m * j];
  std::vector<double> a(m * m), b(k * k), c(k * k), p(m * m * m * m), q(k * k * k * k), r(k * k * k * k);
  macis::two_index_transform(n, m, I.T.data(), n, C.data(), n, a.data(), m);
  macis::two_index_transform(m, k, a.data(), m, D.data(), m, b.data(), k);
  macis::two_index_transform(n, k, I.T.data(), n, E.data(), n, c.data(), k);
  macis::four_index_transform(n, m, I.V.data(), n, C.data(), n, p.data(), m);
  macis::four_index_transform(m, k, p.data(), m, D.data(), m, q.data(), k);
  macis::four_index_transform(n, k, I.V.data(), n, E.data(), n, r.data(), k);
  auto B = ref::transform(ref::transform(absd(I), absd(C), m), absd(D), k);
  cmp(b, c, B.T, k, "two-index, two steps");
  cmp(q, r, B.V, k, "four-index, two steps");
}
