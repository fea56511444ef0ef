// Reference models, written from the textbook definitions; nothing from MACIS.
#pragma once
#include <array>
#include <bitset>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "pbt.hpp"

extern "C" void dsyev_(const char*, const char*, const int*, double*, const int*,
                       double*, double*, const int*, int*);

namespace ref {

using pbt::Bulk;
using pbt::Src;

// ---------------------------------------------------------------- determinants
struct Det {
  uint64_t a = 0, b = 0;  // occupied alpha / beta orbitals
  bool operator<(const Det& o) const { return a != o.a ? a < o.a : b < o.b; }
  bool operator==(const Det& o) const { return a == o.a && b == o.b; }
  bool operator!=(const Det& o) const { return !(*this == o); }
};
inline int popc(uint64_t x) { return __builtin_popcountll(x); }

template <size_t N>
std::bitset<N> to_bits(const Det& d) {
  std::bitset<N> r;
  for(size_t i = 0; i < N / 2 && i < 64; ++i) {
    if((d.a >> i) & 1) r.set(i);
    if((d.b >> i) & 1) r.set(i + N / 2);
  }
  return r;
}
template <size_t N>
Det from_bits(const std::bitset<N>& x) {
  Det d;
  for(size_t i = 0; i < N / 2 && i < 64; ++i) {
    if(x[i]) d.a |= 1ull << i;
    if(x[i + N / 2]) d.b |= 1ull << i;
  }
  return d;
}
inline std::string str(const Det& d, int n) {
  std::string s;
  for(int i = 0; i < n; ++i) {
    bool a = (d.a >> i) & 1, b = (d.b >> i) & 1;
    s += a && b ? '2' : a ? 'u' : b ? 'd' : '0';
  }
  return s;
}

// spin 0 = alpha, 1 = beta; alpha operators come first in the string
inline int below_count(const Det& d, int p, int spin) {
  uint64_t m = p == 0 ? 0 : (~0ull >> (64 - p));
  return spin == 0 ? popc(d.a & m) : popc(d.a) + popc(d.b & m);
}
// returns 0 if the result vanishes, else the sign; changes d
inline int annihilate(Det& d, int p, int spin) {
  uint64_t& w = spin ? d.b : d.a;
  if(!((w >> p) & 1)) return 0;
  int s = (below_count(d, p, spin) & 1) ? -1 : 1;
  w &= ~(1ull << p);
  return s;
}
inline int create(Det& d, int p, int spin) {
  uint64_t& w = spin ? d.b : d.a;
  if((w >> p) & 1) return 0;
  int s = (below_count(d, p, spin) & 1) ? -1 : 1;
  w |= 1ull << p;
  return s;
}

inline std::vector<uint64_t> strings(int n, int k) {
  std::vector<uint64_t> r;
  for(uint64_t x = 0; x < (1ull << n); ++x)
    if(popc(x) == k) r.push_back(x);
  return r;
}
inline std::vector<Det> hilbert(int n, int na, int nb) {
  std::vector<Det> r;
  for(auto b : strings(n, nb))
    for(auto a : strings(n, na)) r.push_back({a, b});
  return r;
}

// ------------------------------------------------------------------- integrals
struct Ints {
  int n = 0;
  std::vector<double> T, V;  // T[p+q n]; V = (pq|rs)
  double core = 0;
  double t(int p, int q) const { return T[p + (size_t)n * q]; }
  double v(int p, int q, int r, int s) const {
    return V[p + (size_t)n * (q + (size_t)n * (r + (size_t)n * s))];
  }
  double& t(int p, int q) { return T[p + (size_t)n * q]; }
  double& v(int p, int q, int r, int s) {
    return V[p + (size_t)n * (q + (size_t)n * (r + (size_t)n * s))];
  }
  explicit Ints(int n_ = 0) : n(n_), T(n_ * n_, 0.), V((size_t)n_ * n_ * n_ * n_, 0.) {}
  void set8(int p, int q, int r, int s, double x) {
    v(p, q, r, s) = x; v(q, p, r, s) = x; v(p, q, s, r) = x; v(q, p, s, r) = x;
    v(r, s, p, q) = x; v(s, r, p, q) = x; v(r, s, q, p) = x; v(s, r, q, p) = x;
  }
  template <class F>
  void fill(F f, bool with_v = true) {
    uint64_t c = 0;
    for(int p = 0; p < n; ++p)
      for(int q = 0; q <= p; ++q) t(p, q) = t(q, p) = f(c++);
    if(with_v)
      for(int p = 0; p < n; ++p)
        for(int q = 0; q <= p; ++q)
          for(int r = 0; r <= p; ++r)
            for(int s = 0; s <= (r == p ? q : r); ++s) set8(p, q, r, s, f(c++));
  }
};

// Generates integrals with 8-fold symmetry.  Mode 0 (simplest): zero except one
// element; 1: small integers; 2: reals; 3: sparse reals; 4: CI-like (dominant diagonal).
inline Ints gen_ints(Src& S, int n) {
  Ints I(n);
  if(n == 0) return I;
  int mode = (int)S.below(6);
  if(mode == 0) {
    int k = (int)S.below(2);
    int p = (int)S.below(n), q = (int)S.below(n), r = (int)S.below(n), s = (int)S.below(n);
    if(k == 0) I.t(p, q) = I.t(q, p) = 1;
    else I.set8(p, q, r, s, 1);
    return I;
  }
  Bulk b{S.seed()};
  if(mode == 1)
    I.fill([&](uint64_t c) { return (double)((int)(b.u(c) % 7) - 3); });
  else if(mode == 2 || mode == 5)
    I.fill([&](uint64_t c) { return b.sym(c); });
  else if(mode == 3)
    I.fill([&](uint64_t c) { return b.u(c * 2 + 1000003) % 3 ? 0.0 : b.sym(c); });
  else {
    I.fill([&](uint64_t c) { return 0.1 * b.sym(c); });
    for(int p = 0; p < n; ++p) {
      I.t(p, p) = -2.0 + 0.7 * p + 0.2 * b.sym(900000 + p);
      for(int q = 0; q < n; ++q) {
        double j = 0.4 + 0.1 * std::fabs(b.sym(910000 + std::min(p, q) * 100 + std::max(p, q)));
        I.set8(p, p, q, q, j);
      }
    }
  }
  return I;
}

// H |k> as a map, H = sum T a+a + 1/2 sum (pq|rs) a+_p a+_r a_s a_q
inline std::map<Det, double> apply_h(const Ints& I, const Det& k) {
  std::map<Det, double> out;
  const int n = I.n;
  for(int sg = 0; sg < 2; ++sg)
    for(int q = 0; q < n; ++q) {
      Det d1 = k;
      int s1 = annihilate(d1, q, sg);
      if(!s1) continue;
      for(int p = 0; p < n; ++p) {
        Det d2 = d1;
        int s2 = create(d2, p, sg);
        if(s2) out[d2] += s1 * s2 * I.t(p, q);
      }
      for(int tau = 0; tau < 2; ++tau)
        for(int s = 0; s < n; ++s) {
          Det e1 = d1;
          int z1 = annihilate(e1, s, tau);
          if(!z1) continue;
          for(int r = 0; r < n; ++r) {
            Det e2 = e1;
            int z2 = create(e2, r, tau);
            if(!z2) continue;
            for(int p = 0; p < n; ++p) {
              Det e3 = e2;
              int z3 = create(e3, p, sg);
              if(z3) out[e3] += 0.5 * s1 * z1 * z2 * z3 * I.v(p, q, r, s);
            }
          }
        }
    }
  return out;
}
inline double elem(const Ints& I, const Det& bra, const Det& ket) {
  auto m = apply_h(I, ket);
  auto it = m.find(bra);
  return it == m.end() ? 0.0 : it->second;
}
// one element between any two determinants over any number of orbitals: only the operator
// strings that can lead from y to x are tried
inline double elem2(const Ints& I, const Det& x, const Det& y) {
  if(popc(x.a ^ y.a) + popc(x.b ^ y.b) > 4) return 0;
  double h = 0;
  const int n = I.n;
  uint64_t oy[2] = {y.a, y.b}, ox[2] = {x.a, x.b};
  for(int sg = 0; sg < 2; ++sg)
    for(int q = 0; q < n; ++q) {
      if(!((oy[sg] >> q) & 1)) continue;
      Det d1 = y;
      int s1 = annihilate(d1, q, sg);
      for(int p = 0; p < n; ++p) {
        if(!((ox[sg] >> p) & 1)) continue;
        Det d2 = d1;
        int s2 = create(d2, p, sg);
        if(s2 && d2 == x) h += s1 * s2 * I.t(p, q);
      }
      for(int tt = 0; tt < 2; ++tt)
        for(int s = 0; s < n; ++s) {
          if(!((oy[tt] >> s) & 1)) continue;
          Det e1 = d1;
          int z1 = annihilate(e1, s, tt);
          if(!z1 || (e1.a & ~x.a) || (e1.b & ~x.b)) continue;
          uint64_t miss[2] = {x.a & ~e1.a, x.b & ~e1.b};
          for(int r = 0; r < n; ++r) {
            if(!((miss[tt] >> r) & 1)) continue;
            Det e2 = e1;
            int z2 = create(e2, r, tt);
            for(int p = 0; p < n; ++p) {
              if(!((miss[sg] >> p) & 1)) continue;
              Det e3 = e2;
              int z3 = create(e3, p, sg);
              if(z3 && e3 == x) h += 0.5 * s1 * z1 * z2 * z3 * I.v(p, q, r, s);
            }
          }
        }
    }
  return h;
}
// <d|H|d> = sum_p t_pp + 1/2 sum_pq [(pp|qq) - same-spin (pq|qp)]
inline double diag(const Ints& I, const Det& d) {
  double e = 0;
  uint64_t w[2] = {d.a, d.b};
  for(int s = 0; s < 2; ++s)
    for(int p = 0; p < I.n; ++p)
      if((w[s] >> p) & 1) {
        e += I.t(p, p);
        for(int u = 0; u < 2; ++u)
          for(int q = 0; q < I.n; ++q)
            if((w[u] >> q) & 1) e += 0.5 * (I.v(p, p, q, q) - (u == s ? I.v(p, q, q, p) : 0));
      }
  return e;
}
// dense matrix, column major
inline std::vector<double> hmat(const Ints& I, const std::vector<Det>& ds) {
  size_t m = ds.size();
  std::map<Det, size_t> ix;
  for(size_t i = 0; i < m; ++i) ix[ds[i]] = i;
  std::vector<double> H(m * m, 0.);
  for(size_t j = 0; j < m; ++j)
    for(auto& [d, x] : apply_h(I, ds[j])) {
      auto it = ix.find(d);
      if(it != ix.end()) H[it->second + j * m] = x;
    }
  return H;
}

// eigenvalues ascending; vectors in columns of A on return
inline std::vector<double> eigh(std::vector<double>& A, int n) {
  std::vector<double> w(n ? n : 1);
  if(!n) return {};
  int lw = 34 * n + 10, info = 0;
  std::vector<double> work(lw);
  dsyev_("V", "U", &n, A.data(), &n, w.data(), work.data(), &lw, &info);
  if(info) throw std::runtime_error("ref dsyev failed");
  return w;
}

// 1- and 2-RDMs: D[p+q n] = <a+_p a_q>, G = <a+_p a+_r a_s a_q> at (p,q,r,s)
struct Rdm {
  int n;
  std::vector<double> D, G;
};
inline Rdm rdms(int n, const std::vector<Det>& ds, const std::vector<double>& C) {
  Rdm R{n, std::vector<double>(n * n, 0.), std::vector<double>((size_t)n * n * n * n, 0.)};
  std::map<Det, double> c;
  for(size_t i = 0; i < ds.size(); ++i) c[ds[i]] += C[i];
  for(auto& [k, ck] : c)
    for(int sg = 0; sg < 2; ++sg)
      for(int q = 0; q < n; ++q) {
        Det d1 = k;
        int s1 = annihilate(d1, q, sg);
        if(!s1) continue;
        for(int p = 0; p < n; ++p) {
          Det d2 = d1;
          int s2 = create(d2, p, sg);
          if(!s2) continue;
          auto it = c.find(d2);
          if(it != c.end()) R.D[p + n * q] += s1 * s2 * ck * it->second;
        }
        for(int tau = 0; tau < 2; ++tau)
          for(int s = 0; s < n; ++s) {
            Det e1 = d1;
            int z1 = annihilate(e1, s, tau);
            if(!z1) continue;
            for(int r = 0; r < n; ++r) {
              Det e2 = e1;
              int z2 = create(e2, r, tau);
              if(!z2) continue;
              for(int p = 0; p < n; ++p) {
                Det e3 = e2;
                int z3 = create(e3, p, sg);
                if(!z3) continue;
                auto it = c.find(e3);
                if(it != c.end())
                  R.G[p + (size_t)n * (q + (size_t)n * (r + (size_t)n * s))] +=
                      s1 * z1 * z2 * z3 * ck * it->second;
              }
            }
          }
      }
  return R;
}

// random orthogonal matrix (column major) by modified Gram-Schmidt
inline std::vector<double> orthogonal(const Bulk& b, int n) {
  for(uint64_t off = 0;; off += 100000) {
    std::vector<double> Q((size_t)n * n);
    for(size_t i = 0; i < Q.size(); ++i) Q[i] = b.sym(off + i);
    bool ok = true;
    for(int j = 0; j < n && ok; ++j) {
      for(int rep = 0; rep < 2; ++rep)
        for(int k = 0; k < j; ++k) {
          double d = 0;
          for(int i = 0; i < n; ++i) d += Q[i + n * k] * Q[i + n * j];
          for(int i = 0; i < n; ++i) Q[i + n * j] -= d * Q[i + n * k];
        }
      double nr = 0;
      for(int i = 0; i < n; ++i) nr += Q[i + n * j] * Q[i + n * j];
      nr = std::sqrt(nr);
      if(nr < 1e-3) ok = false;
      for(int i = 0; i < n; ++i) Q[i + n * j] /= nr;
    }
    if(ok) return Q;
  }
}

// I' = C^T I C with C (n x m), column major
// an overall power of two, mostly one: results scale with it, so that nothing may depend on an absolute size
inline double gen_scale(Src& S) {
  double s = S.coin(1, 5) ? S.oneof({0x1p-20, 0x1p-40, 0x1p-70, 0x1p15}) : 1.;
  if(s != 1) S.label(s < 1 ? "tiny numbers" : "large numbers");
  return s;
}
inline Ints scaled(Ints I, double s) {
  for(auto& x : I.T) x *= s;
  for(auto& x : I.V) x *= s;
  return I;
}
inline double absmax(const std::vector<double>& v) { double m = 0; for(auto x : v) m = std::max(m, std::fabs(x)); return m; }
inline double absmax(const Ints& I) { return std::max(absmax(I.T), absmax(I.V)); }

inline Ints transform(const Ints& I, const std::vector<double>& C, int m) {
  const int n = I.n;
  Ints R(m);
  for(int i = 0; i < m; ++i)
    for(int j = 0; j < m; ++j) {
      double x = 0;
      for(int p = 0; p < n; ++p)
        for(int q = 0; q < n; ++q) x += C[p + n * i] * C[q + n * j] * I.t(p, q);
      R.t(i, j) = x;
    }
  // one index at a time
  std::vector<double> cur = I.V;
  std::array<int, 4> dim{n, n, n, n};
  for(int ax = 0; ax < 4; ++ax) {
    auto nd = dim;
    nd[ax] = m;
    std::vector<double> nx((size_t)nd[0] * nd[1] * nd[2] * nd[3], 0.);
    std::array<int, 4> i;
    for(i[3] = 0; i[3] < dim[3]; ++i[3])
      for(i[2] = 0; i[2] < dim[2]; ++i[2])
        for(i[1] = 0; i[1] < dim[1]; ++i[1])
          for(i[0] = 0; i[0] < dim[0]; ++i[0]) {
            double x = cur[i[0] + (size_t)dim[0] * (i[1] + (size_t)dim[1] * (i[2] + (size_t)dim[2] * i[3]))];
            if(x == 0) continue;
            auto o = i;
            for(int k = 0; k < m; ++k) {
              o[ax] = k;
              nx[o[0] + (size_t)nd[0] * (o[1] + (size_t)nd[1] * (o[2] + (size_t)nd[2] * o[3]))] +=
                  C[i[ax] + n * k] * x;
            }
          }
    cur.swap(nx);
    dim = nd;
  }
  R.V = cur;
  R.core = I.core;
  return R;
}

inline double energy(const Ints& I, const Rdm& R) {
  double e = 0;
  const int n = I.n;
  for(int p = 0; p < n; ++p)
    for(int q = 0; q < n; ++q) e += I.t(p, q) * R.D[p + n * q];
  for(size_t i = 0; i < I.V.size(); ++i) e += 0.5 * I.V[i] * R.G[i];
  return e;
}

// random determinant with given counts inside n orbitals
inline uint64_t gen_string(Src& S, int n, int k) {
  // choose k of n positions; shrinks to the lowest k
  std::vector<int> pos(n);
  for(int i = 0; i < n; ++i) pos[i] = i;
  uint64_t r = 0;
  for(int i = 0; i < k; ++i) {
    size_t j = i + S.below(n - i);
    std::swap(pos[i], pos[j]);
    r |= 1ull << pos[i];
  }
  return r;
}

}  // namespace ref
