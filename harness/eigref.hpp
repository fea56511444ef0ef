// reference treatment of small symmetric eigenproblems, shared by C12 and C13
#pragma once
#include "ref.hpp"
#include "spmat.hpp"

struct Sym { Dense A; std::vector<double> vec, val; double norm = 1; };

static void decompose(Sym& s) {
  s.vec = s.A.a;
  s.val = ref::eigh(s.vec, (int)s.A.m);
  s.norm = 1;
  for(double x : s.val) s.norm = std::max(s.norm, std::fabs(x));
}
static double nrm(const std::vector<double>& v) { double x = 0; for(double y : v) x += y * y; return std::sqrt(x); }
// weight of x in the span of the eigenvectors of the lowest eigenvalue
static double lowest_weight(const Sym& s, const std::vector<double>& x) {
  size_t n = s.A.m;
  double w = 0;
  for(size_t k = 0; k < n && s.val[k] < s.val[0] + 1e-6 * s.norm; ++k) {
    double o = 0;
    for(size_t i = 0; i < n; ++i) o += s.vec[i + k * n] * x[i];
    w += o * o;
  }
  return std::sqrt(w);
}
// Davidson's recurrence written out; `small` is the smallest fraction of a new direction that
// survived orthogonalisation (near zero: rounding noise decides what happens next)
struct RefDav { bool conv = false; int it = 0; double E = 0, small = 1; };
static RefDav ref_davidson(const Sym& s, int max_m, double tol, const std::vector<double>& x0) {
  int n = (int)s.A.m;
  max_m = std::min(max_m, n);
  RefDav R;
  std::vector<std::vector<double>> V{x0}, AV;
  auto mul = [&](const std::vector<double>& v) { std::vector<double> y(n, 0.); for(int j = 0; j < n; ++j) for(int i = 0; i < n; ++i) y[i] += s.A(i, j) * v[j]; return y; };
  auto push = [&](std::vector<double> w) {
    double l0 = nrm(w), f = 1;
    for(int pass = 0; pass < 3; ++pass) {
      for(auto& v : V) { double d = 0; for(int i = 0; i < n; ++i) d += v[i] * w[i]; for(int i = 0; i < n; ++i) w[i] -= d * v[i]; }
      double l = nrm(w);
      if(pass == 0) f = l0 > 0 ? l / l0 : 0;
      if(!(l > 0)) { R.small = 0; return false; }
      for(auto& x : w) x /= l;
    }
    R.small = std::min(R.small, f);
    V.push_back(w);
    return true;
  };
  AV.push_back(mul(x0));
  if(!push(AV[0])) return R;
  for(int i = 1; i < max_m; ++i) {
    AV.push_back(mul(V[i]));
    int k = i + 1;
    std::vector<double> M((size_t)k * k);
    for(int a = 0; a < k; ++a) for(int b = 0; b < k; ++b) { double d = 0; for(int q = 0; q < n; ++q) d += V[a][q] * AV[b][q]; M[a + b * k] = d; }
    auto w = ref::eigh(M, k);
    std::vector<double> r(n, 0.);
    for(int a = 0; a < k; ++a) for(int q = 0; q < n; ++q) r[q] += M[a] * (AV[a][q] - w[0] * V[a][q]);
    R.E = w[0]; R.it = i;
    if(nrm(r) < tol) { R.conv = true; return R; }
    double den = 1e300;
    for(int q = 0; q < n; ++q) { den = std::min(den, std::fabs(s.A(q, q) - w[0])); r[q] = -r[q] / (s.A(q, q) - w[0]); }
    R.small = std::min(R.small, den / s.norm);
    if(!(den > 0) || !push(r)) { R.small = 0; return R; }
  }
  return R;
}
static std::string check_pair(const Sym& s, double E, const std::vector<double>& X, double tol, const std::vector<double>& x0, bool* low = nullptr, int max_m = 1 << 20) {
  size_t n = s.A.m;
  if(X.size() != n) return pbt::fmt("vector of %zu elements, want %zu", X.size(), n);
  double l = nrm(X);
  if(!(std::fabs(l - 1) < 1e-8)) return pbt::fmt("norm of the vector is %.12g", l);
  double r = 0;
  for(size_t i = 0; i < n; ++i) {
    double y = -E * X[i];
    for(size_t j = 0; j < n; ++j) y += s.A(i, j) * X[j];
    r += y * y;
  }
  r = std::sqrt(r);
  if(!(r <= 1.001 * tol + 1e-11 * s.norm * (1 + n))) return pbt::fmt("residual %.6g above the tolerance %.3g (E=%.12g)", r, tol, E);
  if(E < s.val[0] - 1e-10 * s.norm) return pbt::fmt("energy %.12g below the lowest eigenvalue %.12g", E, s.val[0]);
  double gap = 1e300;
  for(double v : s.val) if(v > s.val[0] + 1e-6 * s.norm) { gap = v - s.val[0]; break; }
  // A matrix that (nearly) decouples lets the recurrence converge inside one block; then the
  // recurrence written out above has to end at the same energy.
  if(lowest_weight(s, x0) > 0.2 && gap > 1e3 * tol) {
    if(E > s.val[0] + 2 * tol + 1e-9 * s.norm) {
      auto R = ref_davidson(s, max_m, tol, x0);
      if(R.small < 1e-5 || (R.conv && std::fabs(R.E - E) < 4 * tol + 1e-9 * s.norm)) return "";
    }
    if(low) *low = true;
    if(!(E <= s.val[0] + 2 * tol + 1e-9 * s.norm)) return pbt::fmt("energy %.12g, lowest eigenvalue %.12g", E, s.val[0]);
  }
  return "";
}
static std::vector<double> unit_guess(const Sym& s) {
  std::vector<double> x(s.A.m, 0.);
  size_t k = 0; for(size_t i = 1; i < s.A.m; ++i) if(s.A(i, i) < s.A(k, k)) k = i;
  x[k] = 1;
  return x;
}
// ties in the diagonal make the guess ambiguous
static bool guess_unique(const Sym& s) {
  double lo = 1e300; int c = 0;
  for(size_t i = 0; i < s.A.m; ++i) lo = std::min(lo, s.A(i, i));
  for(size_t i = 0; i < s.A.m; ++i) c += s.A(i, i) < lo + 1e-9 * s.norm;
  return c == 1;
}

