// inactive / active / virtual partitions and active density matrices
#pragma once
#include "ref.hpp"

struct Space { int n, ni, na; int nv() const { return n - ni - na; } };
inline Space gen_space(ref::Src& S, int imax = 3, int amax = 3, int vmax = 3) {
  Space s;
  s.ni = (int)S.integer(0, imax);
  s.na = (int)S.edgy(1, amax);
  s.n = s.ni + s.na + (int)S.integer(0, vmax);
  return s;
}
// active density matrices in the library's normalisation: E = sum T D + sum V G
struct ActRdm { std::vector<double> D, G; bool physical = false; std::vector<ref::Det> ds; std::vector<double> c; };
inline ActRdm physical_rdm(ref::Src& S, int na) {
  ActRdm r;
  r.physical = true;
  int ea = (int)S.integer(0, na), eb = (int)S.integer(0, na);
  r.ds = ref::hilbert(na, ea, eb);
  ref::Bulk b{S.seed()};
  int mode = (int)S.below(3);
  double nr = 0;
  for(size_t i = 0; i < r.ds.size(); ++i) {
    double x = mode == 0 ? (i == b.u(0) % r.ds.size()) : mode == 1 && b.u(2 * i + 7) % 2 ? 0. : b.sym(i);
    r.c.push_back(x);
    nr += x * x;
  }
  if(nr < 1e-8) { r.c[0] = 1; nr = 1; for(size_t i = 1; i < r.c.size(); ++i) r.c[i] = 0; }
  nr = std::sqrt(nr);
  for(auto& x : r.c) x /= nr;
  auto R = ref::rdms(na, r.ds, r.c);
  r.D = R.D;
  r.G = R.G;
  for(auto& x : r.G) x *= 0.5;
  return r;
}
// symmetric D; G with (pqrs) = (rspq) = (qpsr)
inline ActRdm random_rdm(ref::Src& S, int na) {
  ActRdm r;
  ref::Bulk b{S.seed()};
  size_t n = na;
  r.D.resize(n * n);
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q <= p; ++q) r.D[p + n * q] = r.D[q + n * p] = b.sym(p * 100 + q);
  std::vector<double> g(n * n * n * n);
  for(size_t i = 0; i < g.size(); ++i) g[i] = b.sym(100000 + i);
  r.G.resize(g.size());
  auto at = [&](size_t p, size_t q, size_t s, size_t t) { return p + n * (q + n * (s + n * t)); };
  for(size_t p = 0; p < n; ++p) for(size_t q = 0; q < n; ++q) for(size_t s = 0; s < n; ++s) for(size_t t = 0; t < n; ++t)
    r.G[at(p, q, s, t)] = (g[at(p, q, s, t)] + g[at(s, t, p, q)] + g[at(q, p, t, s)] + g[at(t, s, q, p)]) / 4;
  return r;
}
inline ActRdm gen_rdm(ref::Src& S, int na) { return S.coin() ? physical_rdm(S, na) : random_rdm(S, na); }

// total energy: inactive orbitals doubly occupied, active part given by D and G
// (independent of the Fock-matrix code: full-space density matrices are assembled)
inline void full_rdm(const Space& s, const ActRdm& r, std::vector<double>& D, std::vector<double>& G) {
  size_t n = s.n, ni = s.ni, na = s.na;
  D.assign(n * n, 0.);
  G.assign(n * n * n * n, 0.);
  auto at = [&](size_t p, size_t q, size_t t, size_t u) { return p + n * (q + n * (t + n * u)); };
  for(size_t i = 0; i < ni; ++i) D[i + n * i] = 2;
  for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) D[ni + x + n * (ni + y)] = r.D[x + na * y];
  for(size_t x = 0; x < na; ++x) for(size_t y = 0; y < na; ++y) for(size_t z = 0; z < na; ++z) for(size_t w = 0; w < na; ++w)
    G[at(ni + x, ni + y, ni + z, ni + w)] = r.G[x + na * (y + na * (z + na * w))];
  // mean-field part: G = 1/2 (D D - 1/2 exchange) for pairs with at least one inactive index
  for(size_t p = 0; p < ni + na; ++p) for(size_t q = 0; q < ni + na; ++q) for(size_t t = 0; t < ni + na; ++t) for(size_t u = 0; u < ni + na; ++u) {
    bool act = p >= ni && q >= ni && t >= ni && u >= ni;
    if(!act) G[at(p, q, t, u)] = 0.5 * (D[p + n * q] * D[t + n * u] - 0.5 * D[p + n * u] * D[t + n * q]);
  }
}
inline double full_energy(const ref::Ints& I, const std::vector<double>& D, const std::vector<double>& G) {
  double e = 0;
  for(size_t i = 0; i < D.size(); ++i) e += I.T[i] * D[i];
  for(size_t i = 0; i < G.size(); ++i) e += I.V[i] * G[i];
  return e;
}
