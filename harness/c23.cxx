// C23: quasi-Newton minimiser, approximate Hessians and line searches
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include "pbt.hpp"
#include "quiet.hpp"
#include <macis/bfgs/bfgs.hpp>
using pbt::Src;
using vec = std::vector<double>;

static double dot(const vec& a, const vec& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static double nrm(const vec& a) { return std::sqrt(dot(a, a)); }
struct Mat {
  size_t n; vec a;
  Mat(size_t n_) : n(n_), a(n_ * n_, 0.) {}
  double& operator()(size_t i, size_t j) { return a[i + n * j]; }
  double operator()(size_t i, size_t j) const { return a[i + n * j]; }
  vec operator*(const vec& x) const { vec y(n, 0.); for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) y[i] += a[i + n * j] * x[j]; return y; }
};
// symmetric positive definite with eigenvalues in [1, cond]
static Mat spd(pbt::Bulk& b, uint64_t o, size_t n, double cond) {
  std::vector<vec> q;
  for(size_t k = 0; k < n; ++k) {
    vec v(n);
    for(size_t i = 0; i < n; ++i) v[i] = b.sym(o + 100 * k + i) + (i == k);
    for(int r = 0; r < 2; ++r) for(auto& u : q) { double d = dot(u, v); for(size_t i = 0; i < n; ++i) v[i] -= d * u[i]; }
    double l = nrm(v);
    for(auto& x : v) x /= l;
    q.push_back(v);
  }
  Mat A(n);
  for(size_t k = 0; k < n; ++k) {
    double e = std::pow(cond, n == 1 ? 0.5 : (double)k / (n - 1));
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) A(i, j) += e * q[k][i] * q[k][j];
  }
  return A;
}

struct Fn {  // what the caller supplies, with a record of the calls
  using argument_type = vec;
  using return_type = double;
  int kind = 0;
  size_t n = 1;
  Mat A{1};
  vec b;
  double scale = 1, tol = 1e-4;
  size_t evals = 0;
  std::vector<vec> xs, gs;  // arguments of converged()
  std::vector<char> said;
  double value(const vec& x) const {
    double f = 0;
    vec d(n);
    for(size_t i = 0; i < n; ++i) d[i] = x[i] - b[i];
    switch(kind) {
      case 0: return scale * 0.5 * dot(d, A * d);
      case 1:
        for(size_t i = 0; i + 1 < n; ++i) { double u = x[i + 1] - x[i] * x[i], v = 1 - x[i]; f += 10 * u * u + v * v; }
        f += 0.5 * (x[0] - 1) * (x[0] - 1);
        return scale * f;
      case 2: for(size_t i = 0; i < n; ++i) f += d[i] * d[i] * d[i] * d[i]; return scale * (f + 0.25 * dot(d, A * d));
      case 3: for(size_t i = 0; i < n; ++i) f += 3 * std::fabs(d[i]) + std::log1p(std::exp(-6 * std::fabs(d[i]))); return scale * (f + 0.05 * dot(d, A * d));
      default: for(size_t i = 0; i < n; ++i) f += (x[i] * x[i] - 1) * (x[i] * x[i] - 1); return scale * (f + 0.1 * dot(d, A * d));
    }
  }
  vec slope(const vec& x) const {
    vec g(n, 0.), d(n);
    for(size_t i = 0; i < n; ++i) d[i] = x[i] - b[i];
    vec Ad = A * d;
    switch(kind) {
      case 0: g = Ad; break;
      case 1:
        for(size_t i = 0; i + 1 < n; ++i) { double u = x[i + 1] - x[i] * x[i], v = 1 - x[i]; g[i + 1] += 20 * u; g[i] += -40 * u * x[i] - 2 * v; }
        g[0] += x[0] - 1;
        break;
      case 2: for(size_t i = 0; i < n; ++i) g[i] = 4 * d[i] * d[i] * d[i] + 0.5 * Ad[i]; break;
      case 3: for(size_t i = 0; i < n; ++i) g[i] = 3 * std::tanh(3 * d[i]) + 0.1 * Ad[i]; break;
      default: for(size_t i = 0; i < n; ++i) g[i] = 4 * x[i] * (x[i] * x[i] - 1) + 0.2 * Ad[i];
    }
    for(auto& v : g) v *= scale;
    return g;
  }
  double eval(const vec& x) { ++evals; return value(x); }
  vec grad(const vec& x) { return slope(x); }
  bool converged(const vec& x, const vec& g) {
    xs.push_back(x); gs.push_back(g);
    said.push_back(::nrm(g) < tol);
    return said.back();
  }
  static double norm(const vec& x) { return ::nrm(x); }
  static double dot(const vec& a, const vec& b) { return ::dot(a, b); }
  static void scal(double a, vec& x) { for(auto& v : x) v *= a; }
  static void axpy(double a, const vec& x, vec& y) { for(size_t i = 0; i < x.size(); ++i) y[i] += a * x[i]; }
  static vec subtract(const vec& a, const vec& b) { vec r = a; for(size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
};
using H = bfgs::BFGSHessian<Fn>;
static const char* HK[] = {"identity", "updated scaling", "static scaling", "function", "diagonal"};

// explicit inverse: rank-two recursion over all pairs on top of the initial operator
static Mat explicit_inverse(int hk, const vec& D, const std::vector<vec>& s, const std::vector<vec>& y, size_t n, double& amp) {
  Mat M(n);
  double g0 = 1;
  if(hk == 1 && s.size()) g0 = dot(s.back(), y.back()) / dot(y.back(), y.back());
  if(hk == 2 && s.size()) g0 = dot(s[0], y[0]) / dot(y[0], y[0]);
  for(size_t i = 0; i < n; ++i) M(i, i) = hk >= 3 ? 1 / D[i] : g0;
  amp = 1;
  for(size_t k = 0; k < s.size(); ++k) {
    double sy = dot(s[k], y[k]), r = 1 / sy;
    amp *= 1 + std::fabs(r) * nrm(s[k]) * nrm(y[k]);
    Mat V(n), T(n), R(n);  // V = I - r y s^T ; R = V^T M V + r s s^T
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) V(i, j) = (i == j) - r * y[k][i] * s[k][j];
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) for(size_t l = 0; l < n; ++l) T(i, j) += M(i, l) * V(l, j);
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
      for(size_t l = 0; l < n; ++l) R(i, j) += V(l, i) * T(l, j);
      R(i, j) += r * s[k][i] * s[k][j];
    }
    M = R;
  }
  return M;
}
static double big(const Mat& M) { double m = 0; for(auto v : M.a) m = std::max(m, std::fabs(v)); return m; }
static std::unique_ptr<H> make(int hk, vec& D) {
  switch(hk) {
    case 0: return bfgs::make_identity_hessian<Fn>();
    case 1: return bfgs::make_updated_scaled_hessian<Fn>();
    case 2: return bfgs::make_static_scaled_hessian<Fn>();
    case 3: return std::make_unique<bfgs::RuntimeInitializedBFGSHessian<Fn>>([D](vec& x) { for(size_t i = 0; i < x.size(); ++i) x[i] /= D[i]; });
    default: return std::make_unique<bfgs::DiagInitializedBFGSHessian<Fn>>(D.size(), D.data());
  }
}
static vec diag(pbt::Bulk& b, size_t n) { vec D(n); for(size_t i = 0; i < n; ++i) D[i] = std::exp(1.5 * b.sym(900 + i)); return D; }

static Fn gen(Src& S, pbt::Bulk& b, bool convex) {
  Fn f;
  f.n = S.coin(1, 50) ? S.integer(9, 60) : S.edgy(1, 8);
  if(f.n > 8) S.label("many variables");
  f.kind = convex ? S.pick<int>({0, 0, 2, 3}) : (int)S.below(5);
  if(f.kind == 1 && f.n < 2) f.n = 2;
  double cond = S.pick<double>({1.0, 4.0, 30.0});
  f.scale = S.pick<double>({1.0, 1.0, 0.1, 5.0});
  f.A = spd(b, 2000, f.n, cond);
  f.b.resize(f.n);
  for(size_t i = 0; i < f.n; ++i) f.b[i] = 2 * b.sym(1500 + i);
  S.note("function %d of %zu variables, condition %g, scale %g", f.kind, f.n, cond, f.scale);
  S.label(pbt::fmt("function %d", f.kind).c_str());
  return f;
}
static vec start(pbt::Bulk& b, size_t n, double r) { vec x(n); for(size_t i = 0; i < n; ++i) x[i] = r * b.sym(1700 + i); return x; }

PBT(minimise, 1500, 40000, "at least three steps were accepted") {
  quiet();
  pbt::Bulk b{S.seed()};
  Fn f = gen(S, b, false);
  f.tol = S.pick<double>({1e-2, 1e-3, 1e-4});
  if(S.coin(1, 8)) {  // values far below one
    double t = S.pick<double>({1e-6, 1e-9, 1e-12});
    f.scale *= t; f.tol *= f.scale;
    S.note("values times %g", t); S.label("tiny values");
  }
  double r = S.pick<double>({0.3, 1.0, 3.0});
  vec x0 = start(b, f.n, r), D = diag(b, f.n);
  int hk = S.below(5);
  size_t mi = S.coin(1, 4) ? S.integer(0, 8) : 200;
  bool plain = hk == 0 && S.coin();
  S.note("start radius %g, initial operator: %s, tolerance %g, at most %zu iterations", r, HK[hk], f.tol, mi);
  auto B = make(hk, D);
  vec x;
  std::string err;
  bfgs::BFGSSettings set;
  set.max_iter = mi;
  try { x = plain ? bfgs::bfgs(f, x0, set) : bfgs::bfgs(f, x0, *B, set); } catch(std::exception& e) { err = e.what(); }
  size_t K = f.xs.size();
  REQ(K <= mi, "%zu iterations, at most %zu allowed", K, mi);
  for(size_t k = 0; k < K; ++k) {
    vec g = f.slope(f.xs[k]);
    for(size_t i = 0; i < f.n; ++i) REQ(std::fabs(g[i] - f.gs[k][i]) <= 1e-12 * (1 + std::fabs(g[i])), "iteration %zu: convergence is judged by a gradient that is not the one at the point", k + 1);
    if(k + 1 < K) REQ(!f.said[k], "iterations continue after convergence at step %zu", k + 1);
  }
  if(err.empty()) {
    REQ(K && f.said[K - 1], "returned without convergence");
    REQ(x == f.xs[K - 1], "the returned point is not the converged one");
    REQ(nrm(f.slope(x)) < f.tol, "gradient norm %.6g at the returned point, tolerance %.6g", nrm(f.slope(x)), f.tol);
    S.label("converged");
  } else {
    REQ(!K || !f.said[K - 1], "convergence was reached but an exception was thrown: %s", err.c_str());
    S.label(err.c_str());
  }
  // every accepted step
  std::vector<vec> ss, ys;
  vec xp = x0, gp = f.slope(x0);
  for(size_t k = 0; k < K; ++k) {
    double f0 = f.value(xp), f1 = f.value(f.xs[k]);
    vec s = Fn::subtract(f.xs[k], xp), y = Fn::subtract(f.gs[k], gp);
    REQ(f1 <= f0 + 1e-13 * (1 + std::fabs(f0)), "step %zu increases the function: %.15g -> %.15g", k + 1, f0, f1);
    // direction
    double amp = 1;
    Mat M = explicit_inverse(plain ? 0 : hk, D, ss, ys, f.n, amp);
    vec p = k == 0 ? gp : M * gp;  // first step: steepest descent
    for(auto& v : p) v = -v;
    double e = amp * 1e-13, gp_p = dot(gp, p), t = dot(s, p) / dot(p, p);
    if(e < 1e-4 && nrm(p) > 1e-8 && nrm(s) > 1e-10) {
      double off = 0;
      for(size_t i = 0; i < f.n; ++i) off = std::max(off, std::fabs(s[i] - t * p[i]));
      double tol = nrm(s) * 1e-6 + e * t * big(M) * nrm(gp) * 1e1 + 1e-13 * (1 + nrm(f.xs[k]));
      REQ(off <= tol, "step %zu is not along the quasi-Newton direction (off by %.3g of %.3g; allowed %.3g)", k + 1, off, nrm(s), tol);
      REQ(t > 0, "step %zu goes backwards", k + 1);
      REQ(gp_p < 1e-12, "step %zu: accepted along an ascent direction", k + 1);
    }
    // sufficient decrease, with the slack of the acceptance test
    double sg = dot(s, gp);
    REQ(f0 - f1 + 0.5 * sg > -1.01e-6 - 1e-12 * std::fabs(f0), "step %zu: decrease %.8g, half the predicted %.8g", k + 1, f0 - f1, -0.5 * sg);
    ss.push_back(s); ys.push_back(y);
    xp = f.xs[k]; gp = f.gs[k];
  }
  S.nontrivial(K >= 3);
}

PBT(solves, 800, 20000, "more than two iterations were needed") {
  quiet();
  pbt::Bulk b{S.seed()};
  Fn f = gen(S, b, true);
  f.tol = 1e-2 * f.scale;
  vec x0 = start(b, f.n, S.pick<double>({0.3, 1.0, 3.0})), D = diag(b, f.n);
  int hk = S.below(5);
  S.note("initial operator: %s", HK[hk]);
  auto B = make(hk, D);
  bfgs::BFGSSettings set;
  set.max_iter = 300;
  vec x;
  try { x = bfgs::bfgs(f, x0, *B, set); } catch(std::exception& e) { REQ(false, "no convergence on a strongly convex function: %s after %zu iterations", e.what(), f.xs.size()); }
  // strong convexity bounds the distance to the minimiser, which is b
  double mu = f.scale * (f.kind == 0 ? 1 : f.kind == 2 ? 0.5 : 0.1), d = nrm(Fn::subtract(x, f.b));
  REQ(d <= f.tol / mu * 1.001, "the returned point is %.3g away from the minimiser, at most %.3g possible", d, f.tol / mu);
  S.nontrivial(f.xs.size() > 2);
}

PBT(operators, 3000, 80000, "at least as many updates as variables") {
  quiet();
  pbt::Bulk b{S.seed()};
  bool large = S.coin(1, 60);
  size_t n = large ? S.integer(9, 30) : S.edgy(1, 8), steps = large ? S.integer(13, 50) : S.integer(0, 12);
  if(large) S.label("many variables");
  if(S.coin(1, 300)) { n = S.integer(1, 3); steps = S.integer(51, 260); S.label("more than 50 updates"); }
  int hk = S.below(5);
  bool indef = S.coin(1, 4);
  S.note("%zu variables, %zu updates, initial operator: %s%s", n, steps, HK[hk], indef ? ", also negative curvature" : "");
  vec D = diag(b, n);
  bool neg = hk >= 3 && S.coin(1, 4);  // an initial operator that is not positive
  if(neg) for(size_t i = 0; i < n; ++i) if(b.u(800 + i) % 2) D[i] = -D[i];
  auto B = make(hk, D);
  std::vector<vec> ss, ys;
  double scale = std::pow(10., (double)S.integer(-3, 3));
  bool pos = !neg;
  if(neg) S.label("indefinite initial operator");
  for(size_t k = 0; k <= steps; ++k) {
    if(k) {
      Mat A = spd(b, 10000 * k, n, 6);  // a different curvature every time, as on a nonlinear function
      vec s(n);
      for(size_t i = 0; i < n; ++i) s[i] = scale * (b.sym(5000 * k + i) + 0.2 * (i == k % n));
      if(nrm(s) < 1e-3 * scale) s[0] += scale;
      vec y = A * s;
      if(indef && b.u(77 + k) % 3 == 0) { for(auto& v : y) v = -v; pos = false; }
      B->update(s, y);
      ss.push_back(s); ys.push_back(y);
      // secant condition
      vec z = B->apply(y);
      for(size_t i = 0; i < n; ++i) REQ(std::fabs(z[i] - s[i]) <= 1e-9 * nrm(s), "after update %zu: B y = %.12g, s = %.12g (element %zu)", k, z[i], s[i], i);
    }
    double amp = 1;
    Mat M = explicit_inverse(hk, D, ss, ys, n, amp);
    double tol = std::max(big(M), 1.) * std::min(1e-3, 1e-12 * amp);
    Mat G(n);
    for(size_t j = 0; j < n; ++j) {
      vec u(n, 0.);
      u[j] = 1;
      vec z = B->apply(u);
      REQ(u[j] == 1, "apply changed its argument");
      for(size_t i = 0; i < n; ++i) G(i, j) = z[i];
    }
    for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) {
      REQ(std::fabs(G(i, j) - M(i, j)) <= tol, "after %zu updates: (%zu,%zu) = %.12g, the update formula gives %.12g (allowed %.2g)", k, i, j, G(i, j), M(i, j), tol);
      REQ(std::fabs(G(i, j) - G(j, i)) <= tol, "after %zu updates: not symmetric", k);
    }
    if(pos && tol < 1e-6) {
      vec u(n);
      for(size_t i = 0; i < n; ++i) u[i] = b.sym(300 + 10 * k + i) + (i == 0) * 1e-2;
      vec z = B->apply(u);
      REQ(dot(u, z) > -tol * dot(u, u) * n, "after %zu updates: not positive definite (%.6g)", k, dot(u, z));
    }
  }
  if(!pos && indef) S.label("negative curvature");
  S.nontrivial(steps >= n && n > 1);
}

PBT(linesearch, 6000, 150000, "more than one trial step was evaluated and the search succeeded") {
  quiet();
  pbt::Bulk b{S.seed()};
  Fn f = gen(S, b, false);
  vec x0 = start(b, f.n, S.pick<double>({0.3, 1.0, 3.0})), g0 = f.slope(x0), p = g0;
  int mode = S.below(4);
  Mat Q = spd(b, 7000, f.n, 10);
  if(mode >= 1) p = Q * p;
  double len = std::pow(10., (double)S.integer(-2, 2));
  for(auto& v : p) v *= mode == 3 ? len : -len;  // mode 3: ascent
  int which = S.below(3);
  double st = which == 1 ? S.pick<double>({1.0, 0.1, 5.0}) : 1.0, st0 = st;
  static const char* W[] = {"backtracking", "strong Wolfe", "grid"};
  S.note("%s, direction %d of length %g, first step %g", W[which], mode, len, st);
  vec x = x0, g = g0;
  double f0 = f.value(x0), fx = f0, d0 = dot(p, g0);
  f.evals = 0;
  std::string err;
  try {
    if(which == 0) bfgs::backtracking_line_search(f, x0, p, st, x, fx, g);
    else if(which == 1) bfgs::nocedal_wright_line_search(f, x0, p, st, x, fx, g);
    else bfgs::discrete_line_search(f, x0, p, st, x, fx, g);
  } catch(std::exception& e) { err = e.what(); }
  if(which != 2 && d0 > 0) { REQ(!err.empty(), "an ascent direction is accepted"); return; }
  if(!err.empty()) {
    REQ(which != 2, "the grid search threw: %s", err.c_str());
    // a refusal is only acceptable where the function is too flat or rounding decides
    S.label("refused");
    if(which == 1 && f.kind == 0 && std::fabs(d0) > 1e-3 && st0 > 0) REQ(false, "refused on a convex quadratic: %s", err.c_str());
    return;
  }
  // consistency of everything returned
  REQ(st > 0, "step %.6g", st);
  for(size_t i = 0; i < f.n; ++i) REQ(std::fabs(x[i] - x0[i] - st * p[i]) <= 1e-12 * (1 + std::fabs(x[i]) + std::fabs(x0[i])), "the point is not x0 + step p");
  vec gg = f.slope(x);
  REQ(std::fabs(fx - f.value(x)) <= 1e-11 * (1 + std::fabs(fx)), "returned value %.12g, at the returned point %.12g", fx, f.value(x));
  for(size_t i = 0; i < f.n; ++i) REQ(std::fabs(gg[i] - g[i]) <= 1e-9 * (1 + nrm(gg)), "returned gradient is not the one at the returned point");
  double ep = 1e-12 * (1 + std::fabs(f0));
  if(which == 0) {
    REQ(fx <= f0 + ep, "backtracking accepts an increase");
    REQ(f0 - fx + 0.5 * st * d0 > -1.001e-6 - ep, "decrease %.8g, half the predicted %.8g", f0 - fx, -0.5 * st * d0);
  } else if(which == 1) {
    REQ(fx - f0 <= 1e-4 * st * d0 + ep, "sufficient decrease fails: %.8g against %.8g", fx - f0, 1e-4 * st * d0);
    REQ(std::fabs(dot(p, gg)) <= 0.9 * std::fabs(d0) + 1e-9, "curvature condition fails: %.8g against %.8g", std::fabs(dot(p, gg)), 0.9 * std::fabs(d0));
  } else {
    for(int ig = 0; ig < 100; ++ig) {
      vec q = x0;
      Fn::axpy(1.0 - ig * 0.01, p, q);
      REQ(fx <= f.value(q) + 1e-11 * (1 + std::fabs(fx)), "grid step %.2f is lower: %.12g < %.12g", 1.0 - ig * 0.01, f.value(q), fx);
    }
  }
  S.nontrivial(f.evals > 2);
}
