// C13 Davidson eigensolvers
#include "ham.hpp"
#include "quiet.hpp"
#include "spmat.hpp"
#include "eigref.hpp"
#include <macis/solvers/selected_ci_diag.hpp>
#ifndef NOMPI
#include <sparsexx/matrix_types/dist_sparse_matrix.hpp>
#endif
#include "mpi.hpp"
using pbt::Src;
using Csr = sparsexx::csr_matrix<double, int32_t>;
#ifndef NOMPI
using Dist = sparsexx::dist_sparse_matrix<Csr>;
#endif

static Sym gen_sym(Src& S, int n) {
  Sym s;
  s.A = Dense(n, n);
  int mode = S.below(5);
  pbt::Bulk b{S.seed()};
  int blocks = S.coin(1, 4) ? 2 : 1;
  for(int i = 0; i < n; ++i)
    for(int j = 0; j <= i; ++j) {
      double x = b.sym((uint64_t)i * 1000 + j);
      if(mode == 0) x *= i == j ? 0 : 0.1;                                                // small couplings
      if(mode == 1 && i != j && b.u(i * 5000 + j) % 3) x = 0;                             // sparse
      if(mode == 2) x = (double)(int)(b.u(i * 1000 + j) % 5) - 2;                         // integers, ties
      if(blocks == 2 && (i & 1) != (j & 1)) x = 0;
      if(i == j && mode != 2) x += mode == 3 ? 0 : mode == 4 ? -5. * (i == n / 2) : 0.5 * i;
      s.A(i, j) = s.A(j, i) = x;
    }
  decompose(s);
  return s;
}
// diagonal elements that differ by very little, or only in size
static void close_diagonal(Src& S, Sym& s) {
  int how = (int)S.below(4);
  if(how < 2) return;
  pbt::Bulk b{S.seed()};
  double c = how == 2 ? b.sym(0) * 50 : 0, d = how == 2 ? std::ldexp(std::fabs(c) + 1, -(int)S.integer(20, 50)) : std::ldexp(1., -(int)S.integer(0, 400));
  for(int i = 0; i < s.A.n; ++i) s.A(i, i) = c + d * ((double)(b.u(1 + i) % 9) - 4);
}
// a vector whose largest element does not exceed 1/n is not taken as a guess
static void make_small(Src& S, std::vector<double>& x) {
  double big = 0, f = S.real(0.05, 0.95);
  for(double v : x) big = std::max(big, std::fabs(v));
  if(big > 0) for(double& v : x) v *= f / (big * x.size());
}
static std::vector<double> gen_start(Src& S, const Sym& s, int& kind) {
  size_t n = s.A.m;
  std::vector<double> x(n, 0.);
  kind = S.below(4);
  if(kind == 0) { size_t k = 0; for(size_t i = 1; i < n; ++i) if(s.A(i, i) < s.A(k, k)) k = i; x[k] = 1; return x; }
  if(kind == 1) { x[S.below(n)] = 1; return x; }
  pbt::Bulk b{S.seed()};
  for(size_t i = 0; i < n; ++i) x[i] = b.sym(i);
  if(kind == 3) for(size_t i = 0; i < n; ++i) x[i] = 0.2 * x[i] + s.vec[i];  // close to the answer
  double l = nrm(x);
  for(auto& y : x) y /= l;
  return x;
}
static double gen_tol(Src& S) { return std::pow(10., -(double)S.integer(4, 9)); }
// orthonormal columns inside a padded array
static std::vector<double> gen_basis(Src& S, int n, int k, int ld) {
  pbt::Bulk b{S.seed()};
  bool unit = S.coin(1, 4);
  std::vector<double> V((size_t)ld * std::max(k, 1), 777.);
  for(int j = 0; j < k; ++j) {
    std::vector<double> v(n, 0.);
    if(unit) v[j] = 1; else for(int i = 0; i < n; ++i) v[i] = b.sym(i + 1000 * j);
    for(int pass = 0; pass < 2; ++pass)
      for(int q = 0; q < j; ++q) { double d = 0; for(int i = 0; i < n; ++i) d += V[i + q * ld] * v[i]; for(int i = 0; i < n; ++i) v[i] -= d * V[i + q * ld]; }
    double l = nrm(v);
    for(int i = 0; i < n; ++i) V[i + j * ld] = v[i] / l;
  }
  return V;
}
// w: result; v: the vector that was to be orthonormalised
static std::string check_gs(int n, int k, const std::vector<double>& V, int ld, const std::vector<double>& v, const std::vector<double>& w) {
  double l = nrm(w);
  if(!(std::fabs(l - 1) < 1e-12)) return pbt::fmt("norm %.15g", l);
  for(int j = 0; j < k; ++j) {
    double d = 0; for(int i = 0; i < n; ++i) d += V[i + j * ld] * w[i];
    if(!(std::fabs(d) < 1e-11)) return pbt::fmt("overlap %.3g with basis vector %d", d, j);
  }
  // v in span(V, w), with positive direction
  auto r = v;
  for(int j = 0; j < k; ++j) { double d = 0; for(int i = 0; i < n; ++i) d += V[i + j * ld] * v[i]; for(int i = 0; i < n; ++i) r[i] -= d * V[i + j * ld]; }
  double p = 0; for(int i = 0; i < n; ++i) p += r[i] * w[i];
  if(!(p > 0)) return pbt::fmt("direction reversed (%.3g)", p);
  double e = 0; for(int i = 0; i < n; ++i) e = std::max(e, std::fabs(r[i] - p * w[i]));
  if(!(e < 1e-10 * nrm(v))) return pbt::fmt("result is not the projected vector (%.3g)", e);
  return "";
}
// a vector with a substantial part outside the basis
static std::vector<double> gen_new(Src& S, int n, int k, const std::vector<double>& V, int ld) {
  pbt::Bulk b{S.seed()};
  double sc = std::pow(10., (double)S.integer(-6, 6));
  double in = S.oneof({0., 1., 1000., 1e7, 1e10});
  std::vector<double> v(n);
  for(int i = 0; i < n; ++i) v[i] = b.sym(i + 31);
  for(int j = 0; j < k; ++j) for(int i = 0; i < n; ++i) v[i] += in * b.sym(5000 + j) * V[i + j * ld];
  for(auto& x : v) x *= sc;
  auto r = v;
  for(int j = 0; j < k; ++j) { double d = 0; for(int i = 0; i < n; ++i) d += V[i + j * ld] * v[i]; for(int i = 0; i < n; ++i) r[i] -= d * V[i + j * ld]; }
  if(nrm(r) < 1e-12 * nrm(v)) throw pbt::Discard{};
  return v;
}
// random CI problem: determinants and the dense Hamiltonian
template <size_t N>
struct Ci { ref::Ints I; std::vector<ref::Det> ds; Sym s; int n, na, nb; };
template <size_t N>
static Ci<N> gen_ci(Src& S) {
  Ci<N> c;
  c.n = S.integer(2, 5); c.na = S.integer(0, c.n); c.nb = S.integer(0, c.n);
  c.I = ref::gen_ints(S, c.n);
  auto all = ref::hilbert(c.n, c.na, c.nb);
  size_t m = 1 + S.below(std::min<size_t>(all.size(), 30)), off = S.below(all.size());
  auto p = S.perm(std::min<size_t>(all.size(), 60));
  for(size_t i = 0; i < m; ++i) c.ds.push_back(all[(p[i] + off) % all.size()]);
  c.s.A = Dense(m, m);
  c.s.A.a = ref::hmat(c.I, c.ds);
  decompose(c.s);
  return c;
}
#ifdef SERIAL
static void davidson_case(Src& S, int n, int most) {
  quiet();
  auto s = gen_sym(S, n);
  int kind;
  auto x0 = gen_start(S, s, kind);
  double tol = gen_tol(S);
  int max_m = S.coin() ? n + 4 : S.integer(1, n + 4);
  max_m = std::min(max_m, most);
  S.note("n=%d start=%d tol=%g max_m=%d lowest=%.6f", n, kind, tol, max_m, s.val[0]);
  auto A = to_csr<int32_t>(s.A, S.below(2));
  auto D = extract_diagonal_elements(A);
  for(int i = 0; i < n; ++i) REQ(D[i] == s.A(i, i), "diagonal %d", i);
  macis::SparseMatrixOperator op(A);
  auto X = x0;
  double E;
  size_t it;
  try { auto r = macis::davidson(n, max_m, op, D.data(), tol, X.data()); E = r.second; it = r.first; }
  catch(const std::exception&) {
    S.label("reported failure");
    auto R = ref_davidson(s, max_m, 0.5 * tol, x0);
    REQ(!(R.conv && R.small > 1e-5), "the recurrence converges in %d steps, the solver reports failure", R.it);
    return;
  }
  S.label("converged");
  bool low = false;
  auto e = check_pair(s, E, X, tol, x0, &low);
  REQ(e.empty(), "%s", e.c_str());
  REQ(it >= 1 && (int)it < std::max(2, std::min(max_m, n)), "%zu iterations in a space of at most %d", it, std::min(max_m, n));
  S.nontrivial(low && n > 2);
  if(it > 20) S.label("more than 20 iterations");
}
PBT(davidson, 6000, 80000, "it converges from a start with weight on the lowest state") {
  davidson_case(S, S.coin(1, 4) ? S.integer(13, 40) : S.integer(1, 12), 1000);
}
PBT(davidson_large, 160, 3000, "it converges from a start with weight on the lowest state; 41 to 200 rows") {
  davidson_case(S, S.integer(41, 200), 60);
}
PBT(gram_schmidt, 6000, 60000, "at least two basis vectors") {
  int n = S.integer(1, 14), k = S.integer(0, n - 1), ld = n + S.below(4);
  auto V = gen_basis(S, n, k, ld);
  auto v = gen_new(S, n, k, V, ld);
  S.note("n=%d k=%d ld=%d", n, k, ld);
  S.nontrivial(k > 1);
  auto V0 = V;
  auto w = v; w.push_back(5.);
  macis::gram_schmidt(n, k, V.data(), ld, w.data());
  REQ(V == V0, "the basis was changed");
  REQ(w.back() == 5., "wrote past the vector");
  w.pop_back();
  auto e = check_gs(n, k, V, ld, v, w);
  REQ(e.empty(), "%s", e.c_str());
}
PBT(diagonal_guess, 3000, 30000, "at least three rows") {
  int n = S.integer(1, 12);
  auto s = gen_sym(S, n);
  close_diagonal(S, s);
  S.note("n=%d", n); S.nontrivial(n > 2);
  auto A = to_csr<int32_t>(s.A, S.below(2));
  std::vector<double> X(n, 0.);
  // what the vector held before must not matter
  if(S.coin()) for(auto& x : X) x = S.real(-1, 1);
  macis::diagonal_guess(n, A, X.data());
  int k = -1;
  for(int i = 0; i < n; ++i) if(X[i] != 0) { REQ(k < 0 && X[i] == 1, "element %d is %g", i, X[i]); k = i; }
  REQ(k >= 0, "no element set");
  for(int i = 0; i < n; ++i) REQ(s.A(k, k) <= s.A(i, i), "row %d has %g, chosen %d has %g", i, s.A(i, i), k, s.A(k, k));
}
template <size_t N> static void serial_ci(Src& S) {
  quiet();
  auto c = gen_ci<N>(S);
  size_t m = c.ds.size();
  double tol = gen_tol(S), th = S.oneof({0., 1e-14});
  int max_m = S.coin(2, 3) ? m + 5 : S.integer(2, m + 5);
  Gen<N> G(c.I);
  auto B = bitsets<N>(c.ds);
  std::vector<double> x0, C;
  int kind = -1;
  if(S.coin()) { x0 = gen_start(S, c.s, kind); if(S.coin(1, 4)) { make_small(S, x0); S.label("vector too small for a guess"); } C = x0; }
  S.note("N=%zu n=%d dets=%zu tol=%g max_m=%d guess=%d", N, c.n, m, tol, max_m, kind);
  double big = 0; for(double x : C) big = std::max(big, std::fabs(x));
  // a passed guess without a dominant element is replaced or not depending on rounding
  if(kind >= 0 && std::fabs(big - 1. / m) < 1e-6) throw pbt::Discard{};
  if(big < 1. / m) kind = -1;
  if(kind < 0) x0 = unit_guess(c.s);
  auto H = macis::make_csr_hamiltonian<int32_t>(B.begin(), B.end(), G.g, th);
  double E;
  try { E = macis::serial_selected_ci_diag(H, max_m, tol, C); } catch(const std::exception&) { S.label("reported failure"); return; }
  bool low = false, amb = kind < 0 && !guess_unique(c.s);
  auto e = check_pair(c.s, E, C, tol, amb ? std::vector<double>(m, 0.) : x0, &low);
  REQ(e.empty(), "%s", e.c_str());
  S.nontrivial(m > 2);
  S.label("converged");
}
PBT(serial_ci, 3000, 30000, "three or more determinants and converged") { if(S.below(2)) serial_ci<128>(S); else serial_ci<64>(S); }

#else
static std::vector<std::pair<int32_t, int32_t>> gen_tiles(Src& S, int n, int p) {
  std::vector<int> cut{0, n};
  for(int i = 1; i < p; ++i) cut.push_back(S.integer(0, n));
  std::sort(cut.begin(), cut.end());
  std::vector<std::pair<int32_t, int32_t>> t;
  for(int i = 0; i < p; ++i) t.emplace_back(cut[i], cut[i + 1]);
  return t;
}
static std::vector<std::pair<int32_t, int32_t>> default_tiles(const Dist& A, int p) {
  std::vector<std::pair<int32_t, int32_t>> t;
  for(int i = 0; i < p; ++i) t.push_back(A.row_bounds(i));
  return t;
}
static void p_davidson_case(Src& S, int n, int most) {
  quiet();
  auto s = gen_sym(S, n);
  int kind;
  auto x0 = gen_start(S, s, kind);
  double tol = gen_tol(S);
  int max_m = S.coin(2, 3) ? n : S.integer(1, n);
  max_m = std::min(max_m, most);
  SubComm Cm = gen_comm(S);
  bool deflt = S.coin(1, 3);
  auto tiles = gen_tiles(S, n, Cm.size);
  int base = S.below(2);
  S.note("n=%d ranks=%d start=%d tol=%g max_m=%d tiles=", n, Cm.size, kind, tol, max_m);
  for(auto& t : tiles) S.note("%d:%d", t.first, t.second);
  if(deflt) S.label("default distribution");
  if(!Cm.in()) return;
  auto A = to_csr<int32_t>(s.A, base);
  std::unique_ptr<Dist> P;
  if(deflt) P = std::make_unique<Dist>(Cm.c, A); else P = std::make_unique<Dist>(Cm.c, A, tiles);
  if(deflt) tiles = default_tiles(*P, Cm.size);
  int lo = tiles[Cm.rank].first, hi = tiles[Cm.rank].second;
  auto D = extract_diagonal_elements(P->diagonal_tile());
  // the guess
  std::vector<double> g(hi - lo, 9.);
  macis::p_diagonal_guess(g.size(), *P, g.data());
  auto gg = Cm.gatherv(g);
  int at = -1;
  for(int i = 0; i < n; ++i) if(gg[i] != 0) { SOFT(at < 0 && gg[i] == 1, "guess element %d is %g", i, gg[i]); at = i; }
  SOFT(at >= 0, "guess is zero");
  if(at >= 0) for(int i = 0; i < n; ++i) SOFT(s.A(at, at) <= s.A(i, i), "guess picks row %d", at);
  // the solver
  macis::SparseMatrixOperator op(*P);
  std::vector<double> X(x0.begin() + lo, x0.begin() + hi);
  double E = 0;
  bool threw = false;
  long iter = 0;
  try { auto r = macis::p_davidson(hi - lo, max_m, op, D.data(), tol, X.data(), Cm.c); E = r.second; iter = r.first; }
  catch(const std::exception&) { threw = true; }
  bool any = Cm.any(threw), all = !Cm.any(!threw);
  SOFT(any == all, "some ranks report failure, others do not");
  if(any != all) return;
  bool low = false;
  if(!threw) {
    std::vector<double> one{E};
    for(double y : Cm.gatherv(one)) SOFT(y == E, "energies differ between ranks: %.15g %.15g", y, E);
    auto e = check_pair(s, E, Cm.gatherv(X), tol, x0, &low);
    SOFT(e.empty(), "%s", e.c_str());
    S.label("converged");
  } else S.label("reported failure");
  S.nontrivial(low && Cm.size > 1 && n > 2);
  // the serial answer
  auto R = ref_davidson(s, max_m, 0.5 * tol, x0);
  if(R.conv && R.small > 1e-5) {
    S.label("convergence required");
    SOFT(!threw, "converges in %d of %d steps serially, the distributed solver reports failure", R.it, max_m);
    if(!threw && low) SOFT(std::fabs(R.E - E) < 4 * tol + 1e-9 * s.norm, "serial %.12g distributed %.12g", R.E, E);
  }
}
PBT(p_davidson, 1500, 20000, "at least two ranks, and it converges from a start with weight on the lowest state") {
  p_davidson_case(S, S.coin(1, 4) ? S.integer(13, 40) : S.integer(1, 12), 1000);
}
PBT(p_davidson_large, 60, 1500, "at least two ranks, and it converges from a start with weight on the lowest state; 41 to 200 rows") {
  p_davidson_case(S, S.integer(41, 200), 60);
}
PBT(p_diagonal_guess, 1500, 15000, "two or more ranks and three or more rows") {
  quiet();
  int n = S.integer(1, 12);
  auto s = gen_sym(S, n);
  close_diagonal(S, s);
  SubComm Cm = gen_comm(S);
  auto tiles = gen_tiles(S, n, Cm.size);
  int base = S.below(2);
  S.note("n=%d ranks=%d", n, Cm.size);
  S.nontrivial(n > 2 && Cm.size > 1);
  if(!Cm.in()) return;
  Dist P(Cm.c, to_csr<int32_t>(s.A, base), tiles);
  std::vector<double> g(tiles[Cm.rank].second - tiles[Cm.rank].first, -3.);
  macis::p_diagonal_guess(g.size(), P, g.data());
  auto gg = Cm.gatherv(g);
  int at = -1;
  for(int i = 0; i < n; ++i) if(gg[i] != 0) { SOFT(at < 0 && gg[i] == 1, "guess element %d is %g", i, gg[i]); at = i; }
  SOFT(at >= 0, "guess is zero");
  if(at >= 0) for(int i = 0; i < n; ++i) SOFT(s.A(at, at) <= s.A(i, i), "guess picks row %d with %.17g, row %d has %.17g", at, s.A(at, at), i, s.A(i, i));
}
PBT(p_gram_schmidt, 1500, 15000, "two or more ranks and basis vectors") {
  int n = S.integer(1, 14), k = S.integer(0, n - 1);
  auto V = gen_basis(S, n, k, n);
  auto v = gen_new(S, n, k, V, n);
  SubComm Cm = gen_comm(S);
  auto tiles = gen_tiles(S, n, Cm.size);
  int pad = S.below(3);
  S.note("n=%d k=%d ranks=%d", n, k, Cm.size);
  S.nontrivial(k > 1 && Cm.size > 1);
  if(!Cm.in()) return;
  int lo = tiles[Cm.rank].first, nl = tiles[Cm.rank].second - lo, ld = nl + pad;
  std::vector<double> L((size_t)std::max(ld, 1) * std::max(k, 1), 3.);
  for(int j = 0; j < k; ++j) for(int i = 0; i < nl; ++i) L[i + j * ld] = V[lo + i + j * n];
  std::vector<double> w(v.begin() + lo, v.begin() + lo + nl);
  w.push_back(5.);
  auto L0 = L;
  macis::p_gram_schmidt(nl, k, L.data(), ld, w.data(), Cm.c);
  SOFT(L == L0, "the basis was changed");
  SOFT(w.back() == 5., "wrote past the vector");
  w.pop_back();
  auto e = check_gs(n, k, V, n, v, Cm.gatherv(w));
  SOFT(e.empty(), "%s", e.c_str());
}
PBT(p_rayleigh_ritz, 1500, 15000, "two or more ranks and vectors") {
  int n = S.integer(1, 14), k = S.integer(1, n);
  auto s = gen_sym(S, n);
  auto V = gen_basis(S, n, k, n);
  SubComm Cm = gen_comm(S);
  auto tiles = gen_tiles(S, n, Cm.size);
  S.note("n=%d k=%d ranks=%d", n, k, Cm.size);
  S.nontrivial(k > 1 && Cm.size > 1);
  if(!Cm.in()) return;
  int lo = tiles[Cm.rank].first, nl = tiles[Cm.rank].second - lo;
  std::vector<double> X((size_t)nl * k), AX((size_t)nl * k), W(k, -7.), C((size_t)k * k, -7.);
  std::vector<double> AV((size_t)n * k, 0.), M((size_t)k * k, 0.);
  for(int j = 0; j < k; ++j) for(int i = 0; i < n; ++i) for(int q = 0; q < n; ++q) AV[i + j * n] += s.A(i, q) * V[q + j * n];
  for(int j = 0; j < k; ++j) for(int i = 0; i < nl; ++i) { X[i + j * nl] = V[lo + i + j * n]; AX[i + j * nl] = AV[lo + i + j * n]; }
  for(int a = 0; a < k; ++a) for(int b = 0; b < k; ++b) for(int i = 0; i < n; ++i) M[a + b * k] += V[i + a * n] * AV[i + b * n];
  macis::p_rayleigh_ritz(nl, k, X.data(), nl, AX.data(), nl, W.data(), C.data(), k, Cm.c);
  auto R = M;
  auto w = ref::eigh(R, k);
  for(int a = 0; a < k; ++a) SOFT(std::fabs(w[a] - W[a]) < 1e-11 * s.norm * n, "Ritz value %d is %.12g want %.12g", a, W[a], w[a]);
  for(int a = 0; a < k; ++a) for(int b = 0; b < k; ++b) {
    double r = -W[a] * C[b + a * k], o = 0;
    for(int q = 0; q < k; ++q) { r += M[b + q * k] * C[q + a * k]; o += C[q + a * k] * C[q + b * k]; }
    SOFT(std::fabs(r) < 1e-10 * s.norm * n, "Ritz vector %d: residual %.3g", a, r);
    SOFT(std::fabs(o - (a == b)) < 1e-11 * n, "Ritz vectors %d,%d: overlap %.3g", a, b, o);
  }
}
#endif
#if !defined(SERIAL) || defined(NOMPI)
#ifdef NOMPI
const bool whole = true;
#else
const bool whole = false;
#endif
template <size_t N> static void dist_ci(Src& S) {
  quiet();
  auto c = gen_ci<N>(S);
  size_t m = c.ds.size();
  double tol = gen_tol(S), th = S.oneof({0., 1e-14});
  int max_m = S.coin(2, 3) ? m + 5 : S.integer(2, m + 5), kind = -1;
  std::vector<double> x0;
  bool pass = S.coin();
  if(pass) x0 = gen_start(S, c.s, kind);
  if(pass && S.coin(1, 4)) { make_small(S, x0); S.label("vector too small for a guess"); }
  auto pass0 = x0;
  SubComm Cm = gen_comm(S);
  S.note("N=%zu n=%d dets=%zu ranks=%d tol=%g max_m=%d guess=%d", N, c.n, m, Cm.size, tol, max_m, kind);
  double big = 0; for(double x : x0) big = std::max(big, std::fabs(x));
  if(pass && std::fabs(big - 1. / m) < 1e-6) throw pbt::Discard{};
  bool used = pass && big > 1. / m;
  if(!used) x0 = unit_guess(c.s);
  if(m < (size_t)Cm.size) S.label("fewer determinants than ranks");
  if(m < 4) { for(double x : c.s.A.a) S.note("%.17g", x); S.note("x0"); for(double x : x0) S.note("%.17g", x); }
  if(!Cm.in()) return;
  Gen<N> G(c.I);
  auto B = bitsets<N>(c.ds);
#ifdef NOMPI
  size_t lo = 0, hi = m;
#else
  sparsexx::dist_sparse_matrix<Csr> like(Cm.c, m, m);
  auto [lo, hi] = like.row_bounds(Cm.rank);
#endif
  std::vector<double> C;
  // every rank but the ones owning nothing passes its part
  if(pass) C.assign(pass0.begin() + lo, pass0.begin() + hi);
  double E = 0;
  bool threw = false;
  try { E = macis::selected_ci_diag<N>(B.begin(), B.end(), G.g, th, max_m, tol, C COMM(Cm.c)); } catch(const std::exception&) { threw = true; }
  bool any = Cm.any(threw), all = !Cm.any(!threw);
  SOFT(any == all, "some ranks report failure, others do not");
  if(any != all) return;
  bool low = false, amb = !used && !guess_unique(c.s);
  if(!threw) {
    auto e = check_pair(c.s, E, Cm.gatherv(C), tol, amb ? std::vector<double>(m, 0.) : x0, &low);
    SOFT(e.empty(), "%s", e.c_str());
    S.label("converged");
    S.nontrivial(m > 2 && (Cm.size > 1 || whole));
  } else S.label("reported failure");
  // serial answer from the same start
  if(amb) return;
  auto R = ref_davidson(c.s, max_m, 0.5 * tol, x0);
  if(R.conv && R.small > 1e-5) {
    S.label("convergence required");
    SOFT(!threw, "converges in %d of %d steps serially, the distributed solver reports failure", R.it, max_m);
    if(!threw && low) SOFT(std::fabs(R.E - E) < 4 * tol + 1e-9 * c.s.norm, "serial %.12g distributed %.12g", R.E, E);
  }
}
#ifdef NOMPI
PBT(whole_ci, 1500, 20000, "three or more determinants, converged")
#else
PBT(dist_ci, 1500, 20000, "three or more determinants, two or more ranks, converged")
#endif
 { if(S.below(2)) dist_ci<128>(S); else dist_ci<64>(S); }
#endif
