// C22: DIIS extrapolation as a history-dependent object
#include "ref.hpp"
#include "quiet.hpp"
#include <macis/util/diis.hpp>
using pbt::Src;
using vec = std::vector<double>;

// least norm of sum c_i e_i with sum c_i = 1: projection of e_0 on the complement of
// the differences (modified Gram-Schmidt, twice, dropping dependent differences)
static double optimum(const std::vector<vec>& e) {
  double m = 0;
  for(auto& x : e) for(auto y : x) m = std::max(m, std::fabs(y));
  std::vector<vec> q;
  auto dot = [](const vec& a, const vec& b) { double s = 0; for(size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; };
  auto proj = [&](vec& r) { for(int rep = 0; rep < 2; ++rep) for(auto& b : q) { double d = dot(b, r); for(size_t i = 0; i < r.size(); ++i) r[i] -= d * b[i]; } };
  for(size_t k = 1; k < e.size(); ++k) {
    vec d = e[k];
    for(size_t i = 0; i < d.size(); ++i) d[i] -= e[0][i];
    proj(d);
    double l = std::sqrt(dot(d, d));
    if(l < 1e-6 * m) continue;  // too flat for the normal equations to use
    for(auto& x : d) x /= l;
    q.push_back(d);
  }
  vec r = e[0];
  proj(r);
  return std::sqrt(dot(r, r));
}

static void history_case(Src& S, bool large) {
  quiet();
  size_t keep = S.edgy(1, large ? 30 : 8), steps = S.integer(1, large ? 80 : 14), dim = S.edgy(1, large ? 60 : 12), extra = S.below(large ? 300 : 3);
  int mode = S.below(4);
  double size = std::pow(10., (double)S.integer(-1, 2));
  S.note("window=%zu steps=%zu error dimension=%zu mode=%d size=%g", keep, steps, dim, mode, size);
  pbt::Bulk b{S.seed()};
  macis::DIIS<vec> D(keep);
  std::vector<vec> vs, es;
  // vectors: one private component each (reads off the coefficient), then random ones
  size_t N = steps + extra;
  int done = 0;
  for(size_t k = 0; k < steps; ++k) {
    vec v(N, 0.), e(dim);
    v[k] = 1;
    for(size_t i = steps; i < N; ++i) v[i] = b.sym(1000 * k + i);
    for(size_t i = 0; i < dim; ++i) {
      double x = b.sym(1000000 + 100 * k + i);
      e[i] = size * (mode == 0 ? x : mode == 1 ? x * std::pow(0.5, (double)k) : mode == 2 ? (double)(int)(b.u(1000000 + 100 * k + i) % 3) - 1 : (i == 0) + 0.3 * x);
    }
    if(mode == 2 && k && b.u(5000000 + k) % 3 == 0) e = es.back();  // repeated error
    D.add_vector(v, e);
    vs.push_back(v); es.push_back(e);
    if(!S.coin(2, 3) && k + 1 < steps) continue;
    ++done;
    auto x = D.extrapolate();
    REQ(x.size() == N, "extrapolated vector has %zu elements, want %zu", x.size(), N);
    size_t first = k + 1 > keep ? k + 1 - keep : 0;
    double sum = 0, cm = 1;
    for(size_t j = 0; j < steps; ++j) {
      if(j < first || j > k) REQ(std::fabs(x[j]) < 1e-12, "vector %zu outside the window [%zu,%zu] contributes %.3g", j, first, k, x[j]);
      else { sum += x[j]; cm = std::max(cm, std::fabs(x[j])); }
    }
    REQ(std::fabs(sum - 1) < 1e-8 * cm, "coefficients add up to %.12g", sum);
    for(size_t i = steps; i < N; ++i) {
      double w = 0;
      for(size_t j = first; j <= k; ++j) w += x[j] * vs[j][i];
      REQ(std::fabs(x[i] - w) < 1e-10 * cm, "component %zu: %.12g, from the coefficients %.12g", i, x[i], w);
    }
    std::vector<vec> win(es.begin() + first, es.begin() + k + 1);
    double m = 0;
    for(auto& e : win) for(auto y : e) m = std::max(m, std::fabs(y));
    vec r(dim, 0.);
    for(size_t j = first; j <= k; ++j) for(size_t i = 0; i < dim; ++i) r[i] += x[j] * es[j][i];
    double n = 0;
    for(auto y : r) n += y * y;
    n = std::sqrt(n);
    double o = optimum(win);
    if(m > 0) REQ(n <= o + 1e-5 * m + 1e-7, "combined error %.10g, the least possible is %.10g (largest element %.3g)", n, o, m);
    // extrapolating does not change the history
    if(S.coin(1, 4)) {
      auto y = D.extrapolate();
      for(size_t i = 0; i < N; ++i) REQ(std::fabs(x[i] - y[i]) <= 1e-9 * cm, "a second extrapolation gives a different vector");
    }
    if(k == 0 || keep == 1) for(size_t i = 0; i < N; ++i) REQ(std::fabs(x[i] - v[i]) < 1e-12, "one vector in the window: extrapolation changes it");
  }
  S.nontrivial(steps > keep && done > 1);
  if(dim < std::min(keep, steps)) S.label("dependent errors");
}
PBT(history, 6000, 120000, "more vectors added than the window holds, extrapolated at least twice") { history_case(S, false); }
PBT(long_history, 60, 1500, "more vectors added than the window holds, extrapolated at least twice; windows of up to 30, up to 80 vectors") { history_case(S, true); }
