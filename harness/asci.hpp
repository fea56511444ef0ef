// generators and the reference scoring for the determinant search
#pragma once
#include "ham.hpp"
#include "quiet.hpp"
#include "mpi.hpp"
#include <macis/asci/determinant_search.hpp>

struct SearchCase {
  int n, na, nb;
  ref::Ints I;
  std::vector<ref::Det> core;
  std::vector<double> C;
  double E0 = 0;
  macis::ASCISettings st;
  size_t ndets_max = 0;
  // contributions up to the pruning tolerance may be dropped when the list is full
  double slack() const { return core.size() * st.rv_prune_tol * 1.0000001; }
  // reference
  std::map<ref::Det, double> score;   // all coupled determinants outside the core
  std::map<ref::Det, double> raw;     // the same, core determinants included
  std::map<ref::Det, double> err;     // rounding error allowed in each
  double error(const ref::Det& d) const { auto it = err.find(d); return slack() + (it == err.end() ? 0. : it->second); }
};

// scores: |sum_k c_k H_bk / (E0 - H_bb)| over couplings not screened away
// par: the distributed search compares either |H| or |c H| with the threshold, depending
// on the excitation; cases in which the two disagree are not decided
inline void score_ref(SearchCase& c, bool par) {
  c.score.clear();
  c.raw.clear();
  c.err.clear();
  double vs = vscale(c.I), big = vs * (c.na + c.nb + 1) * (c.na + c.nb + 1) + std::fabs(c.E0) + 10;
  double tol = c.st.h_el_tol;
  std::map<ref::Det, double> diag;
  for(size_t k = 0; k < c.core.size(); ++k)
    for(auto& [b, h] : ref::apply_h(c.I, c.core[k])) {
      if(b == c.core[k]) continue;
      int deg = (ref::popc(b.a ^ c.core[k].a) + ref::popc(b.b ^ c.core[k].b)) / 2;
      if(c.st.just_singles && deg != 1) continue;
      double m = std::fabs(h), eps = 1e-11 * (1 + vscale(c.I) * 30);
      if(tol > 0 && std::fabs(m - tol) < eps) throw pbt::Discard{};  // undecidable in floating point
      if(tol > 0 && par) {
        double mc = std::fabs(h * c.C[k]);
        if(std::fabs(mc - tol) < eps || (mc < tol) != (m < tol)) throw pbt::Discard{};
      }
      if(m < tol) continue;
      auto it = diag.find(b);
      if(it == diag.end()) it = diag.emplace(b, ref::diag(c.I, b)).first;
      double den = c.E0 - it->second;
      if(std::fabs(den) < 1e-2) throw pbt::Discard{};
      c.raw[b] += c.C[k] * h / den;
      c.err[b] += 1e-13 * std::fabs(c.C[k] / den) * ((vs + 5) * (c.na + c.nb) + std::fabs(h) * (100 + big / std::fabs(den)));
    }
  for(auto& [b, s] : c.raw) if(std::find(c.core.begin(), c.core.end(), b) == c.core.end()) c.score[b] = s;
}

inline SearchCase gen_search(pbt::Src& S, int nmin, int nmax, int emax, size_t maxcore, bool par) {
  SearchCase c;
  c.n = S.integer(nmin, nmax);
  c.na = std::min<int64_t>(S.integer(0, c.n), emax);
  c.nb = std::min<int64_t>(S.integer(0, c.n), emax);
  if(c.na + c.nb == 0) c.na = 1;
  c.I = ref::Ints(c.n);
  int mode = S.below(4);
  pbt::Bulk b{S.seed()};
  if(mode == 0) c.I.fill([&](uint64_t i) { return b.u(i * 2 + 1) % 4 ? 0.0 : b.sym(i); });
  else if(mode == 1) c.I.fill([&](uint64_t i) { return b.sym(i) * std::pow(10., -(double)(b.u(i + 55555) % 6)); });
  else c.I.fill([&](uint64_t i) { return b.sym(i); });
  for(int p = 0; p < c.n; ++p) c.I.t(p, p) = -3 + 0.6 * p + 0.1 * b.sym(7777777 + p);
  size_t m = 1 + S.below(maxcore);
  auto k = gen_det(S, c.n, c.na, c.nb);
  std::set<ref::Det> s{k};
  bool far = S.coin(1, 3);
  for(size_t i = 1; i < m; ++i) s.insert(far ? gen_det(S, c.n, c.na, c.nb) : excite(S, k, c.n, S.below(3), S.below(3)));
  c.core.assign(s.begin(), s.end());
  for(size_t i = 0; i + 1 < c.core.size(); ++i) std::swap(c.core[i], c.core[i + S.below(c.core.size() - i)]);
  pbt::Bulk cb{S.seed()};
  int cm = S.below(4);
  for(size_t i = 0; i < c.core.size(); ++i)
    c.C.push_back(cm == 0 ? (i ? 0.3 : 1.0) : cm == 1 ? cb.sym(i) : cm == 2 ? (cb.u(i) % 4 == 0 && i ? 0.0 : cb.sym(i) * std::pow(10., -(double)(cb.u(i + 9) % 5)))
                  : cb.sym(i) * std::pow(10., -3. * (double)(cb.u(i + 9) % 8)));  // down to 1e-21
  c.st.h_el_tol = S.oneof({0.0, 0.0, 1e-8, 1e-3, 0.2});
  if(par && c.st.h_el_tol > 0) for(auto& x : c.C) x = x < 0 ? -1 : 1;
  c.E0 = S.coin() ? -40 - 10 * cb.unit(100) : 6 * cb.sym(101);
  c.st.rv_prune_tol = S.oneof({0.0, 0.0, 1e-10, 1e-6, 1e-3});
  c.st.just_singles = S.coin(1, 5);
  c.st.constraint_level = (int)S.integer(0, 3);
  // a small buffer forces the pruning branch; with a zero tolerance it must not matter
  c.st.pair_size_max = S.coin(1, 3) ? (size_t)S.integer(1, 40) : (size_t)20000;
  score_ref(c, par);
  size_t cand = c.score.size();
  switch(S.below(4)) {
    case 0: c.ndets_max = c.core.size() + cand + S.below(5); break;
    case 1: c.ndets_max = c.core.size() + S.below(3); break;
    default: c.ndets_max = c.core.size() + S.below(cand + 1);
  }
  return c;
}
inline std::string descr(const SearchCase& c) {
  return pbt::fmt("n=%d na=%d nb=%d core=%zu candidates=%zu ndets_max=%zu h_tol=%g js=%d buf=%zu prune=%g level=%d E0=%.3f core0=%s", c.n, c.na, c.nb, c.core.size(), c.score.size(),
                  c.ndets_max, c.st.h_el_tol, (int)c.st.just_singles, c.st.pair_size_max, c.st.rv_prune_tol, c.st.constraint_level, c.E0, ref::str(c.core[0], c.n).c_str());
}

// empty string if `got` is a correct answer to the case
template <size_t N>
std::string check_answer(const SearchCase& c, const std::vector<std::bitset<N>>& got) {
  std::set<ref::Det> s;
  for(auto& g : got) {
    auto d = ref::from_bits<N>(g);
    if(ref::to_bits<N>(d) != g) return "a determinant with bits outside";
    if(!s.insert(d).second) return "determinant " + ref::str(d, c.n) + " returned twice";
  }
  if(got.size() > c.ndets_max) return pbt::fmt("%zu determinants returned, %zu allowed", got.size(), c.ndets_max);
  for(auto& k : c.core) if(!s.erase(k)) return "core determinant " + ref::str(k, c.n) + " missing";
  double lo = 1e300, hi = 0;
  ref::Det lod, hid;
  for(auto& d : s) {
    auto it = c.score.find(d);
    if(it == c.score.end()) return "determinant " + ref::str(d, c.n) + " is not coupled to the core";
    if(double x = std::fabs(it->second) + c.error(d); x < lo) { lo = x; lod = d; }
  }
  for(auto& [b, x] : c.score) if(!s.count(b) && std::fabs(x) - c.error(b) > hi) { hi = std::fabs(x) - c.error(b); hid = b; }
  if(!s.empty() && hi > lo) return pbt::fmt("left out %s with score %.12g, kept %s with score %.12g", ref::str(hid, c.n).c_str(), hi, ref::str(lod, c.n).c_str(), lo);
  if(s.size() + c.core.size() < c.ndets_max && hi > 0) return pbt::fmt("room for %zu determinants, but %s with score %.12g was left out", c.ndets_max, ref::str(hid, c.n).c_str(), hi);
  return "";
}
template <size_t N>
std::vector<std::bitset<N>> run_search(SearchCase& c, Gen<N>& G, MPI_Comm comm) {
  auto B = bitsets<N>(c.core);
  return macis::asci_search<N>(c.st, c.ndets_max, B.begin(), B.end(), c.E0, c.C, c.n, G.g.T(), G.g.G_red(), G.g.V_red(), G.g.G(), G.g.V(), G.g COMM(comm));
}
