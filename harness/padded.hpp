// tensors with padded leading dimensions: inputs carry NaN in the padding, outputs a guard value
#pragma once
#include "pbt.hpp"

struct Pad {
  int rank;
  size_t n, ld;  // logical extent of every index, leading dimension
  std::vector<double> a;
  double fill;
  Pad(int rank_, size_t n_, size_t ld_, double fill_) : rank(rank_), n(n_), ld(ld_), fill(fill_) {
    size_t s = n;
    for(int i = 1; i < rank; ++i) s *= ld;
    a.assign(s + 1, fill);
  }
  double* data() { return a.data(); }
  double& operator()(size_t i, size_t j) { return a[i + ld * j]; }
  double& operator()(size_t i, size_t j, size_t k, size_t l) { return a[i + ld * (j + ld * (k + ld * l))]; }
  // contiguous copy of the logical part
  std::vector<double> logical() const {
    std::vector<double> r;
    each([&](size_t o) { r.push_back(a[o]); });
    return r;
  }
  void load(const std::vector<double>& x) {
    size_t c = 0;
    std::vector<size_t> o;
    each([&](size_t i) { o.push_back(i); });
    for(auto i : o) a[i] = x[c++];
  }
  template <class F>
  void each(F f) const {
    size_t N = 1;
    for(int i = 0; i < rank; ++i) N *= n;
    for(size_t x = 0; x < N; ++x) {
      size_t y = x, o = 0, m = 1;
      for(int i = 0; i < rank; ++i) { o += (y % n) * m; y /= n; m *= ld; }
      f(o);
    }
  }
  // number of padding elements that no longer hold the fill value
  size_t touched() const {
    std::vector<char> in(a.size(), 0);
    each([&](size_t o) { in[o] = 1; });
    size_t k = 0;
    for(size_t i = 0; i < a.size(); ++i) if(!in[i] && memcmp(&a[i], &fill, 8)) ++k;
    return k;
  }
};
inline Pad pin(int rank, size_t n, size_t pad, const std::vector<double>& x) {
  Pad p(rank, n, std::max<size_t>(n, 1) + pad, NAN);
  p.load(x);
  return p;
}
inline Pad pout(int rank, size_t n, size_t pad) { return Pad(rank, n, std::max<size_t>(n, 1) + pad, -777.25); }
