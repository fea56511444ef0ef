// C28: LOBPCG and its building blocks
#include "ref.hpp"
#include <lobpcgxx/lobpcg.hpp>
using pbt::Src;
using namespace lobpcgxx;

template <class T> struct Mat {  // column major, padded leading dimension
  int64_t n, k, ld;
  std::vector<T> a;
  T fill;
  Mat(int64_t n_, int64_t k_, int64_t ld_, T fill_ = T(-777.25)) : n(n_), k(k_), ld(ld_), a(std::max<int64_t>(1, ld_ * k_), fill_), fill(fill_) {}
  T& operator()(int64_t i, int64_t j) { return a[i + j * ld]; }
  const T& operator()(int64_t i, int64_t j) const { return a[i + j * ld]; }
  bool pad_kept() const {
    for(int64_t j = 0; j < k; ++j) for(int64_t i = n; i < ld; ++i) if(a[i + j * ld] != fill) return false;
    return true;
  }
};
static double gap(double a, double b) { return std::fabs(a - b); }

struct Problem {
  int64_t n;
  std::vector<double> A, lam, vec;
  double norm = 0;
};
static Problem problem(Src& S, int64_t n) {
  Problem P;
  P.n = n;
  pbt::Bulk b{S.seed()};
  int mode = S.below(6);
  S.note("spectrum=%d", mode);
  std::vector<double> d(n);
  for(int64_t i = 0; i < n; ++i)
    switch(mode) {
      case 0: d[i] = 1. + i; break;
      case 1: d[i] = 10 * b.sym(i); break;
      case 2: d[i] = (double)(i / 3) - 2; break;                              // triples
      case 3: d[i] = -5. + 1e-3 * (i % 4) + (i / 4); break;                   // tight clusters
      case 4: d[i] = std::pow(1.3, (double)(i % 30)) * (i % 2 ? 1 : -0.25); break;
      default: d[i] = 4 * std::pow(std::sin(M_PI * (i + 1) / (2. * (n + 1))), 2); break;  // chain Laplacian
    }
  auto Q = ref::orthogonal(pbt::Bulk{S.seed()}, (int)n);
  P.A.assign(n * n, 0.);
  if(S.coin(1, 4)) {  // a matrix that is not made from its decomposition
    for(int64_t i = 0; i < n; ++i) for(int64_t j = 0; j <= i; ++j) P.A[i + j * n] = P.A[j + i * n] = (i == j ? d[i] : 0.3 * b.sym(1000 + i * n + j));
  } else
    for(int64_t k = 0; k < n; ++k) for(int64_t j = 0; j < n; ++j) for(int64_t i = 0; i < n; ++i) P.A[i + j * n] += Q[i + k * n] * d[k] * Q[j + k * n];
  for(int64_t j = 0; j < n; ++j) for(int64_t i = 0; i < j; ++i) P.A[i + j * n] = P.A[j + i * n];
  P.vec = P.A;
  P.lam = ref::eigh(P.vec, (int)n);
  for(double x : P.lam) P.norm = std::max(P.norm, std::fabs(x));
  return P;
}

template <class T> static void solve(Src& S) {
  const double eps = std::is_same_v<T, float> ? 1e-6 : 1e-14;
  int64_t K = S.integer(1, 5), NR = S.integer(1, K), n = S.coin(1, 60) ? S.integer(61, 200) : S.edgy(4 * K, 60);  // below 4K the residual block cannot have full rank
  auto P = problem(S, n);
  int64_t ld = n + (S.coin() ? S.integer(1, 5) : 0);
  // starting block: orthonormal, generic (its own stream, so that it is unrelated to the matrix)
  auto Q = ref::orthogonal(pbt::Bulk{S.seed() + (1ull << 40)}, (int)n);
  Mat<T> V(n, K, ld);
  for(int64_t j = 0; j < K; ++j) for(int64_t i = 0; i < n; ++i) V(i, j) = (T)Q[i + j * n];
  cholqr(n, K, V.a.data(), ld);
  const Mat<T> V0 = V;
  lobpcg_settings set;
  int e = std::is_same_v<T, float> ? S.integer(2, 3) : S.integer(3, 9);
  set.conv_tol = std::pow(10., -e);
  set.maxiter = S.oneof<int64_t>({500, 500, 500, 500, 60, 25, 3, 1, 0});
  set.print_iter = false;
  set.track_convergence = S.coin();
  int prec = S.below(4), over = S.below(5), chk = over == 0 ? S.below(3) : 0;
  S.note("n=%ld K=%ld NR=%ld ld=%ld tol=1e-%d maxiter=%ld track=%d preconditioner=%d overload=%d check=%d", n, K, NR, ld, e, set.maxiter, (int)set.track_convergence, prec, over, chk);
  bool badcall = false;
  size_t napply = 0;
  operator_action_type<T> Aop = [&](int64_t N, int64_t k, const T* v, int64_t ldv, T* av, int64_t ldav) {
    badcall |= N != n || k < 1 || k > 3 * K || ldv < N || ldav < N;
    ++napply;
    for(int64_t c = 0; c < k; ++c) for(int64_t i = 0; i < n; ++i) {
      double x = 0;
      for(int64_t j = 0; j < n; ++j) x += P.A[i + j * n] * v[j + c * ldv];
      av[i + c * ldav] = (T)x;
    }
  };
  double shift = P.lam[0] - 0.1 * (1 + P.norm);
  operator_action_type<T> Kop = [&](int64_t N, int64_t k, const T* v, int64_t ldv, T* kv, int64_t ldkv) {
    badcall |= N != n || k != K || ldv < N || ldkv < N;
    for(int64_t c = 0; c < k; ++c) for(int64_t i = 0; i < n; ++i) {
      if(prec == 2) { kv[i + c * ldkv] = v[i + c * ldv] / (T)std::max(P.A[i + i * n] - shift, 0.01); continue; }
      double x = 0;  // (A - shift)^-1
      for(int64_t q = 0; q < n; ++q) { double d = 0; for(int64_t j = 0; j < n; ++j) d += P.vec[j + q * n] * v[j + c * ldv]; x += P.vec[i + q * n] * d / (P.lam[q] - shift); }
      kv[i + c * ldkv] = (T)x;
    }
  };
  lobpcg_operator<T> op = prec >= 2 ? lobpcg_operator<T>(Aop, Kop) : lobpcg_operator<T>(Aop);
  std::vector<T> lam(NR + 1, T(55)), res(NR + 1, T(55));
  lobpcg_convergence<T> conv;
  int64_t lwork = -1;
  std::vector<T> work;
  size_t custom = 0;
  lobpcg_convergence_check<T> check;
  if(chk == 0) check = lobpcg_relres_convergence_check<T>;
  if(chk == 1) check = lobpcg_absres_convergence_check<T>;
  if(chk == 2) check = [&](int64_t nr, const T*, const T* rel, T tol) { ++custom; badcall |= nr != NR || tol != (T)set.conv_tol; for(int64_t i = 0; i < nr; ++i) if(!(rel[i] < 0.5 * tol)) return false; return true; };
  if(over == 0 || over == 1 || over == 3) {
    lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data(), (T*)nullptr, lwork, check, conv);
    REQ(lwork == lobpcg_lwork(n, K), "workspace query says %ld", lwork);
    REQ(napply == 0 && V.a == V0.a && lam[0] == T(55), "a workspace query computes");
    work.resize(lwork);
  }
  if(S.coin()) conv.conv_data.resize(2);  // records of an earlier solution
  std::string err;
  try {
    if(over == 0) lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data(), work.data(), lwork, check, conv);
    if(over == 1) lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data(), work.data(), lwork, conv);
    if(over == 2) lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data(), conv);
    if(over == 3) lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data(), work.data(), lwork);
    if(over == 4) lobpcg(set, n, K, NR, op, lam.data(), V.a.data(), ld, res.data());
  } catch(const std::runtime_error& x) { err = x.what(); }
  REQ(!badcall, "operator or check called with wrong arguments");
  REQ(lam[NR] == T(55) && res[NR] == T(55), "writes beyond NR results");
  REQ(V.pad_kept(), "writes into the padding of V");
  bool limit = err == "LOBPCG FAILED TO CONVERGE", chol = err == "Cholesky failed in CholQR";
  REQ(err.empty() || limit || chol, "unknown failure %s", err.c_str());
  S.label(err.empty() ? "converged" : limit ? "limit" : "cholesky");
  bool tracked = set.track_convergence && over < 3;
  if(tracked) {
    auto& h = conv.conv_data;
    REQ((int64_t)h.size() <= set.maxiter, "%zu records in %ld iterations", h.size(), set.maxiter);
    if(limit) REQ((int64_t)h.size() == set.maxiter, "gave up after %zu of %ld iterations", h.size(), set.maxiter);
    for(size_t t = 0; t < h.size(); ++t) {
      REQ((int64_t)h[t].W.size() == K && (int64_t)h[t].res.size() == K && (int64_t)h[t].rel_res.size() == K, "record %zu has wrong length", t);
      for(int64_t i = 0; i < K; ++i) {
        double slack = 100 * eps * (1 + P.norm);
        if(i) REQ(h[t].W[i] >= h[t].W[i - 1], "record %zu not ascending", t);
        REQ(h[t].W[i] >= P.lam[i] - slack, "record %zu Ritz value %ld = %.12g below eigenvalue %.12g", t, i, (double)h[t].W[i], P.lam[i]);
        if(t) REQ(h[t].W[i] <= h[t - 1].W[i] + slack, "Ritz value %ld rises from %.12g to %.12g in iteration %zu", i, (double)h[t - 1].W[i], (double)h[t].W[i], t);
        bool in = false;
        for(double x : P.lam) in |= gap(x, h[t].W[i]) <= h[t].res[i] * (1 + 1e-4) + slack;
        REQ(in, "record %zu: no eigenvalue within the residual norm %.3g of %.12g", t, (double)h[t].res[i], (double)h[t].W[i]);
      }
    }
    if(!h.empty()) {  // first record is the Rayleigh-Ritz projection of the start
      std::vector<double> G(K * K, 0.);
      for(int64_t a = 0; a < K; ++a) for(int64_t c = 0; c < K; ++c) for(int64_t i = 0; i < n; ++i) for(int64_t j = 0; j < n; ++j) G[a + c * K] += V0(i, a) * P.A[i + j * n] * V0(j, c);
      auto w = ref::eigh(G, (int)K);
      for(int64_t i = 0; i < K; ++i) REQ(gap(w[i], h[0].W[i]) < 100 * eps * (1 + P.norm), "first Ritz value %ld = %.12g, want %.12g", i, (double)h[0].W[i], w[i]);
    }
  } else if(over < 3) REQ(conv.conv_data.empty(), "records kept although not asked for");
  if(chol) {
    // orthonormalisation fails when the residuals vanish (exact vectors, space exhausted)
    REQ(tracked ? !conv.conv_data.empty() : true, "Cholesky failure before the first iteration");
    if(tracked && sizeof(T) == 8) {
      double m = 1;
      for(auto r : conv.conv_data.back().rel_res) m = std::min(m, (double)r);
      REQ(m < (n > 4 * K ? 1e-4 : 2), "orthonormalisation fails although all residuals are above %.3g", m);
    }
    return;
  }
  // results describe eigenpairs whether or not they converged
  for(int64_t i = 0; i < K; ++i) for(int64_t j = 0; j <= i; ++j) {
    double o = 0;
    for(int64_t q = 0; q < n; ++q) o += (double)V(q, i) * V(q, j);
    REQ(gap(o, i == j) < 1e4 * eps, "vectors %ld,%ld overlap %.12g", i, j, o);
  }
  if(tracked && err.empty()) for(int64_t i = 0; i < NR; ++i) REQ(lam[i] == conv.conv_data.back().W[i] && res[i] == conv.conv_data.back().rel_res[i], "returned pair %ld differs from the last record", i);
  double worst = 0;
  for(int64_t i = 0; i < NR; ++i) {
    double r = 0, ax = 0, rq = 0;
    std::vector<double> y(n, 0.);
    for(int64_t q = 0; q < n; ++q) for(int64_t j = 0; j < n; ++j) y[q] += P.A[q + j * n] * V(j, i);
    for(int64_t q = 0; q < n; ++q) { double d = y[q] - (double)lam[i] * V(q, i); r += d * d; ax += y[q] * y[q]; rq += y[q] * V(q, i); }
    r = std::sqrt(r); ax = std::sqrt(ax);
    double rel = r / (ax + std::fabs((double)lam[i]));
    double slack = 1e4 * eps * (1 + P.norm);
    REQ(gap(rq, lam[i]) < slack, "value %ld is %.12g, its vector's Rayleigh quotient %.12g", i, (double)lam[i], rq);
    if(ax > 0.01) REQ(gap(rel, res[i]) < 1e-3 * rel + slack / ax, "reported residual %ld %.6g, true %.6g", i, (double)res[i], rel);
    REQ(lam[i] >= P.lam[i] - slack, "value %ld = %.12g below eigenvalue %.12g", i, (double)lam[i], P.lam[i]);
    if(i) REQ(lam[i] >= lam[i - 1], "values not ascending at %ld", i);
    worst = std::max(worst, r);
    if(err.empty()) {
      if(chk == 1) REQ(r < set.conv_tol + slack, "returns with residual %.3g, tolerance %.3g", r, set.conv_tol);
      else if(ax > 0.01) REQ(rel < (chk == 2 ? 0.5 : 1) * set.conv_tol + slack / ax, "returns with relative residual %.3g, tolerance %.3g", rel, set.conv_tol);
    }
  }
  if(err.empty()) {
    if(chk == 2) REQ(custom > 0, "caller's convergence check not used");
    // a small residual only pins the value to some eigenvalue; that it is the lowest can be
    // asked for where missing it needs a start that all but lacks the vector
    double spread = P.lam[n - 1] - P.lam[0], miss = e >= 7 ? 0.003 : 0.02;
    if(e >= 5) for(int64_t i = 0; i < NR; ++i) REQ(gap(lam[i], P.lam[i]) < 100 * worst + miss * spread + 1e4 * eps * (1 + P.norm), "value %ld = %.12g, eigenvalue %.12g, largest residual %.3g", i, (double)lam[i], P.lam[i], worst);
    S.nontrivial(napply > 3);
  } else {
    // a generous limit must suffice when there is room
    REQ(!(set.maxiter == 500 && n > 4 * K && K > NR + 1 && e <= 6), "no convergence in %ld iterations", set.maxiter);
  }
}
PBT(double_precision, 1500, 30000, "converged after more than two operator applications with room left in the space") { solve<double>(S); }
PBT(single_precision, 300, 6000, "converged after more than two operator applications with room left in the space") { solve<float>(S); }

// ---- building blocks, each against its defining equation, on padded arrays
template <class T> static void blocks(Src& S) {
  const double eps = std::is_same_v<T, float> ? 1e-6 : 1e-14;
  int64_t n = S.edgy(1, 40), k = S.integer(1, std::min<int64_t>(n, 8)), pad = S.integer(0, 4);
  int which = S.below(4);
  pbt::Bulk b{S.seed()};
  S.note("block=%d n=%ld k=%ld padding=%ld", which, n, k, pad);
  uint64_t c = 0;
  auto fill = [&](Mat<T>& M, double sc = 1) { for(int64_t j = 0; j < M.k; ++j) for(int64_t i = 0; i < M.n; ++i) M(i, j) = (T)(sc * b.sym(c++)); };
  S.nontrivial(n > 1 && k > 1 && pad);
  if(which == 0) {  // orthonormalisation: same leading spans, orthonormal
    Mat<T> V(n, k, n + pad);
    fill(V);
    double sc = std::pow(10., (double)S.integer(-3, 3));
    for(int64_t j = 0; j < k; ++j) for(int64_t i = 0; i < n; ++i) V(i, j) = (T)(V(i, j) * sc + (i == j ? 2 * sc : 0));
    auto V0 = V;
    int rep = S.below(3);
    // condition number bounded by construction of a reference Gram-Schmidt
    std::vector<std::vector<double>> q;
    double cond = 1;
    for(int64_t j = 0; j < k; ++j) {
      std::vector<double> v(n);
      double l0 = 0, l = 0;
      for(int64_t i = 0; i < n; ++i) { v[i] = V0(i, j); l0 += v[i] * v[i]; }
      for(int r = 0; r < 2; ++r) for(auto& u : q) { double d = 0; for(int64_t i = 0; i < n; ++i) d += u[i] * v[i]; for(int64_t i = 0; i < n; ++i) v[i] -= d * u[i]; }
      for(auto x : v) l += x * x;
      cond = std::max(cond, std::sqrt(l0 / l));
      for(auto& x : v) x /= std::sqrt(l);
      q.push_back(v);
    }
    if(!(cond < 100)) throw pbt::Discard{};
    if(rep == 0) cholqr(n, k, V.a.data(), V.ld); else cholqr(n, k, V.a.data(), V.ld, rep + 1);
    REQ(V.pad_kept(), "padding");
    for(int64_t i = 0; i < k; ++i) for(int64_t j = 0; j <= i; ++j) {
      double o = 0;
      for(int64_t p = 0; p < n; ++p) o += (double)V(p, i) * V(p, j);
      REQ(gap(o, i == j) < 1e3 * eps, "vectors %ld,%ld overlap %.12g", i, j, o);
    }
    for(int64_t j = 0; j < k; ++j) {  // unique with positive triangular factor
      double d = 0;
      for(int64_t i = 0; i < n; ++i) d = std::max(d, gap(V(i, j), q[j][i]));
      REQ(d < 1e3 * eps * cond * cond, "column %ld is off Gram-Schmidt by %.3g", j, d);
    }
  } else if(which == 1) {  // Rayleigh-Ritz
    Mat<T> X(n, k, n + pad), AX(n, k, n + S.integer(0, 3)), C(k, k, k + S.integer(0, 3));
    fill(X);
    for(int64_t j = 0; j < k; ++j) X(j, j) += T(2);  // far from linear dependence
    try { cholqr(n, k, X.a.data(), X.ld); } catch(const std::exception&) { throw pbt::Discard{}; }
    Mat<T> A(n, n, n);
    fill(A);
    for(int64_t j = 0; j < n; ++j) for(int64_t i = 0; i < j; ++i) A(i, j) = A(j, i);
    std::vector<double> G(k * k, 0.), GX(n * k, 0.);
    for(int64_t j = 0; j < k; ++j) for(int64_t i = 0; i < n; ++i) { double x = 0; for(int64_t p = 0; p < n; ++p) x += (double)A(i, p) * X(p, j); AX(i, j) = (T)x; GX[i + j * n] = x; }
    for(int64_t j = 0; j < k; ++j) for(int64_t i = 0; i < k; ++i) for(int64_t p = 0; p < n; ++p) G[i + j * k] += X(p, i) * GX[p + j * n];
    auto X0 = X, AX0 = AX;
    std::vector<T> w(k + 1, T(99));
    rayleigh_ritz(n, k, X.a.data(), X.ld, AX.a.data(), AX.ld, w.data(), C.a.data(), C.ld);
    REQ(X.a == X0.a && AX.a == AX0.a && C.pad_kept() && w[k] == T(99), "inputs or padding changed");
    auto Gs = G;
    auto ref = ref::eigh(Gs, (int)k);
    for(int64_t i = 0; i < k; ++i) {
      REQ(gap(ref[i], w[i]) < 1e3 * eps * (1 + n), "Ritz value %ld = %.12g, want %.12g", i, (double)w[i], ref[i]);
      for(int64_t p = 0; p < k; ++p) {
        double r = -(double)w[i] * C(p, i), o = 0;
        for(int64_t q = 0; q < k; ++q) { r += G[p + q * k] * C(q, i); o += (double)C(q, i) * C(q, p); }
        REQ(std::fabs(r) < 1e3 * eps * (1 + n), "coefficient vector %ld is no eigenvector (%.3g)", i, r);
        REQ(gap(o, i == p) < 1e3 * eps, "coefficient vectors %ld,%ld overlap %.12g", i, p, o);
      }
    }
  } else if(which == 2) {  // residuals
    Mat<T> X(n, k, n + pad), AX(n, k, n + S.integer(0, 3)), R(n, k, n + S.integer(0, 3));
    fill(X); fill(AX, 3);
    std::vector<T> w(k), ab(k + 1, T(99)), re(k + 1, T(99));
    for(auto& x : w) x = (T)(4 * b.sym(c++));
    auto X0 = X, AX0 = AX; auto w0 = w;
    residuals(n, k, X.a.data(), X.ld, AX.a.data(), AX.ld, w.data(), R.a.data(), R.ld, ab.data(), re.data());
    REQ(X.a == X0.a && AX.a == AX0.a && w == w0 && R.pad_kept() && ab[k] == T(99) && re[k] == T(99), "inputs or padding changed");
    for(int64_t j = 0; j < k; ++j) {
      double r2 = 0, a2 = 0;
      for(int64_t i = 0; i < n; ++i) {
        double r = (double)AX(i, j) - (double)w[j] * X(i, j);
        REQ(gap(r, R(i, j)) < 100 * eps, "residual %ld,%ld", i, j);
        r2 += r * r; a2 += (double)AX(i, j) * AX(i, j);
      }
      REQ(gap(std::sqrt(r2), ab[j]) < 1e3 * eps, "norm %ld is %.12g, want %.12g", j, (double)ab[j], std::sqrt(r2));
      double rel = std::sqrt(r2) / (std::sqrt(a2) + std::fabs((double)w[j]));
      REQ(gap(rel, re[j]) < 1e3 * eps, "relative norm %ld is %.12g, want %.12g", j, (double)re[j], rel);
    }
  } else {  // rotation in place: X (n x m) times C (m x k), k <= m
    int64_t m = k + S.integer(0, 3);
    Mat<T> X(n, m, n + pad), C(m, k, m + S.integer(0, 3));
    fill(X); fill(C);
    auto X0 = X, C0 = C;
    std::vector<T> work(n * k);
    rotate_basis(n, k, m, X.a.data(), X.ld, C.a.data(), C.ld, work.data());
    REQ(C.a == C0.a && X.pad_kept(), "rotation or padding changed");
    for(int64_t j = 0; j < m; ++j) for(int64_t i = 0; i < n; ++i) {
      double x = j < k ? 0 : (double)X0(i, j);
      if(j < k) for(int64_t p = 0; p < m; ++p) x += (double)X0(i, p) * C(p, j);
      REQ(gap(x, X(i, j)) < 1e3 * eps, "rotated %ld,%ld is %.12g, want %.12g", i, j, (double)X(i, j), x);
    }
  }
}
PBT(blocks_double, 6000, 100000, "several vectors of several elements in padded storage") { blocks<double>(S); }
PBT(blocks_single, 2000, 40000, "several vectors of several elements in padded storage") { blocks<float>(S); }

PBT(checks, 4000, 40000, "at least two residuals, some below and some above the tolerance, or both kinds disagree") {
  int64_t n = S.integer(0, 6);
  std::vector<double> a(n + 1), r(n + 1);
  double tol = std::pow(10., -(double)S.integer(1, 6));
  bool wa = true, wr = true;
  for(int64_t i = 0; i <= n; ++i) {
    auto v = [&] { return tol * S.oneof({0.5, 0.9999999, 0.0, 1.0, 1.0000001, 2.0, 1e300}); };
    a[i] = S.coin(3, 4) ? 0.5 * tol : v(); r[i] = S.coin(3, 4) ? 0.5 * tol : v();
    if(i < n) { wa &= a[i] < tol; wr &= r[i] < tol; }
  }
  S.nontrivial(n > 1 && (wa != wr || !wa));
  S.note("n=%ld tol=%g", n, tol);
  REQ(lobpcg_relres_convergence_check<double>(n, a.data(), r.data(), tol) == wr, "relative check");
  REQ(lobpcg_absres_convergence_check<double>(n, a.data(), r.data(), tol) == wa, "absolute check");
}

PBT(contract, 600, 6000, "one argument out of its range") {
  int64_t K = S.integer(1, 3), NR = S.integer(1, K), n = S.integer(4 * K, 20);
  int bad = S.below(5);
  auto P = problem(S, n);
  std::vector<double> V(n * K), lam(K, 7.5), res(K, 7.5);
  auto Q = ref::orthogonal(pbt::Bulk{S.seed() + (1ull << 40)}, (int)n);
  std::copy(Q.begin(), Q.begin() + n * K, V.begin());
  auto V0 = V;
  size_t calls = 0;
  operator_action_type<double> A = [&](int64_t, int64_t k, const double* v, int64_t ldv, double* av, int64_t ldav) {
    ++calls;
    for(int64_t c = 0; c < k; ++c) for(int64_t i = 0; i < n; ++i) { av[i + c * ldav] = 0; for(int64_t j = 0; j < n; ++j) av[i + c * ldav] += P.A[i + j * n] * v[j + c * ldv]; }
  };
  lobpcg_settings set;
  set.print_iter = false;
  int64_t lw = lobpcg_lwork(n, K);
  if(bad == 0) set.maxiter = -S.integer(1, 5);
  if(bad == 1) set.conv_tol = -std::pow(10., -(double)S.integer(0, 12));
  if(bad == 2) lw = S.integer(0, lw - 1);
  if(bad == 4) lw += S.integer(0, 50);
  S.note("bad=%d n=%ld K=%ld lwork=%ld", bad, n, K, lw);
  S.nontrivial(bad < 4);
  if(bad == 3) {
    bool thrown = false;
    try { lobpcg_operator<double> op{operator_action_type<double>{}}; } catch(const std::runtime_error&) { thrown = true; }
    REQ(thrown, "an empty operator is accepted");
    return;
  }
  lobpcg_operator<double> op(A);
  std::vector<double> work(lw);
  bool thrown = false;
  int64_t l = lw;
  try { lobpcg(set, n, K, NR, op, lam.data(), V.data(), n, res.data(), work.data(), l); } catch(const std::runtime_error& e) { thrown = true; }
  REQ(l == lw, "workspace length changed");
  if(bad < 4) {
    REQ(thrown, "accepted");
    REQ(calls == 0 && V == V0 && lam[0] == 7.5 && res[0] == 7.5, "a refused call computes");
  }
}
