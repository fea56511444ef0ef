// C12 growing and refining a selected-CI wave function
#include "ham.hpp"
#include "quiet.hpp"
#include "eigref.hpp"
#include <macis/asci/grow.hpp>
#include <macis/asci/refine.hpp>
#include "mpi.hpp"
using pbt::Src;
using ref::Det;

struct Prob {
  int n, na, nb;
  ref::Ints I;
  std::vector<Det> all;
  double efci = 0;
  bool dense = false;
  macis::ASCISettings st;
  macis::MCSCFSettings mc;
};
static double lowest(const ref::Ints& I, const std::vector<Det>& ds) { auto H = ref::hmat(I, ds); return ref::eigh(H, (int)ds.size())[0]; }
static double hscale(const Prob& P) { return 1 + vscale(P.I) * (P.na + P.nb + 1) * (P.na + P.nb + 1); }

static Prob gen_prob(Src& S, bool large = false) {
  Prob P;
  P.n = large ? 7 : S.coin(1, 40) ? 6 : S.coin(1, 8) ? 5 : (int)S.integer(2, 4);
  P.na = S.integer(0, P.n); P.nb = S.integer(0, P.n);
  if(large) { P.na = S.integer(2, 3); P.nb = S.integer(1, 2); }
  if(P.na % P.n == 0 && P.nb % P.n == 0) P.na = S.integer(1, P.n - 1);  // more than one determinant
  P.I = ref::Ints(P.n);
  pbt::Bulk b{S.seed()};
  double off = S.oneof({0.1, 0.3, 1.0});
  int sparse = S.below(3) == 2;
  P.dense = !sparse;
  P.I.fill([&](uint64_t i) { return sparse && b.u(i + 909) % 3 == 0 ? 0. : off * b.sym(i); });
  for(int p = 0; p < P.n; ++p) P.I.t(p, p) = -3 + 0.8 * p + 0.1 * b.sym(7777777 + p);
  P.all = ref::hilbert(P.n, P.na, P.nb);
  P.efci = lowest(P.I, P.all);
  size_t F = P.all.size();
  P.st.ntdets_max = S.coin(1, 3) ? F : S.integer(1, F);
  P.st.ntdets_min = S.coin(1, 8) ? S.integer(1, 2 * F) : S.integer(1, std::min<size_t>(P.st.ntdets_max, 8));  // may exceed the maximum
  P.st.ncdets_max = S.coin() ? F : S.integer(1, F);
  P.st.grow_factor = S.integer(2, 8);
  P.st.h_el_tol = S.oneof({0., 1e-8});
  P.st.rv_prune_tol = 0;
  P.st.pair_size_max = 100000;
  P.st.just_singles = S.coin(1, 10);
  P.st.constraint_level = S.below(4);
  P.mc.ci_max_subspace = F + 5;
  P.mc.ci_res_tol = std::pow(10., -(double)S.integer(5, 8));
  P.mc.ci_matel_tol = S.oneof({0., 1e-15});
  return P;
}
static std::string descr(const Prob& P) {
  return pbt::fmt("n=%d na=%d nb=%d fci=%zu max=%zu min=%zu nc=%zu factor=%zu js=%d rtol=%g", P.n, P.na, P.nb, P.all.size(), P.st.ntdets_max, P.st.ntdets_min, P.st.ncdets_max, P.st.grow_factor, (int)P.st.just_singles, P.mc.ci_res_tol);
}
// determinant set + dense Hamiltonian + energy/vector
template <size_t N>
static std::string check_state(const Prob& P, const ref::Ints& I, const std::vector<std::bitset<N>>& w, const std::vector<double>& X, double E, bool* low) {
  std::vector<Det> ds;
  std::set<Det> seen;
  for(auto& x : w) {
    auto d = ref::from_bits<N>(x);
    if(ref::to_bits<N>(d) != x || ((d.a | d.b) >> P.n)) return "determinant outside the orbitals";
    if(ref::popc(d.a) != P.na || ref::popc(d.b) != P.nb) return "electron number changed: " + ref::str(d, P.n);
    if(!seen.insert(d).second) return "determinant twice: " + ref::str(d, P.n);
    ds.push_back(d);
  }
  if(w.size() > P.st.ntdets_max) return pbt::fmt("%zu determinants, at most %zu allowed", w.size(), P.st.ntdets_max);
  Sym s;
  s.A = Dense(ds.size(), ds.size());
  s.A.a = ref::hmat(I, ds);
  decompose(s);
  if(E < P.efci - 1e-9 * hscale(P)) return pbt::fmt("energy %.12g below full CI %.12g", E, P.efci);
  std::vector<double> x0 = guess_unique(s) ? unit_guess(s) : std::vector<double>(ds.size(), 0.);
  auto e = check_pair(s, E, X, P.mc.ci_res_tol, x0, low, (int)P.mc.ci_max_subspace);
  if(!e.empty()) return e;
  if(ds.size() == P.all.size() && low && *low && std::fabs(E - P.efci) > 3 * P.mc.ci_res_tol + 1e-9 * hscale(P)) return pbt::fmt("all determinants, energy %.12g, full CI %.12g", E, P.efci);
  return "";
}
// every rank must hold the same wave function
template <size_t N>
static std::string same_everywhere(const SubComm& C, const std::vector<std::bitset<N>>& w, const std::vector<double>& X, double E) {
  std::vector<double> v{E, (double)w.size()};
  v.insert(v.end(), X.begin(), X.end());
  for(auto& x : w) { auto d = ref::from_bits<N>(x); v.push_back((double)d.a); v.push_back((double)d.b); }
  std::vector<int> cnt;
  auto g = C.gatherv(v, &cnt);
  size_t off = 0;
  for(int r = 0; r < C.size; ++r) {
    if((size_t)cnt[r] != v.size()) return pbt::fmt("rank %d holds a wave function of another size", r);
    for(size_t i = 0; i < v.size(); ++i) if(g[off + i] != v[i]) return pbt::fmt("rank %d differs (item %zu: %.15g, here %.15g)", r, i, g[off + i], v[i]);
    off += cnt[r];
  }
  return "";
}
static bool contains(const char* w, const char* s) { return std::string(w).find(s) != std::string::npos; }

template <size_t N>
static void grow(Src& S, const SubComm& C, bool large = false) {
  quiet();
  auto P = gen_prob(S, large);
  bool rot = S.coin(1, 3);
  P.st.grow_with_rot = rot;
  P.st.rot_size_start = S.integer(1, P.all.size());
  Det d0;
  if(S.coin(2, 3)) { d0.a = (1ull << P.na) - 1; d0.b = (1ull << P.nb) - 1; } else d0 = P.all[S.below(P.all.size())];
  S.note("N=%zu ranks=%d %s%s start=%s", N, C.size, descr(P).c_str(), rot ? " rot" : "", ref::str(d0, P.n).c_str());
  if(P.st.ntdets_max < 2) throw pbt::Discard{};
  if(P.n > 4) S.label(P.n > 5 ? "6 orbitals" : "5 orbitals");
  // no determinant may be degenerate with the reference energy, the search divides by the difference
  if(!C.in()) return;
  Gen<N> G(P.I);
  std::vector<std::bitset<N>> w{ref::to_bits<N>(d0)};
  double E = ref::diag(P.I, d0);
  std::vector<double> X{1.};
  bool threw = false;
  std::string what;
  try { std::tie(E, w, X) = macis::asci_grow<N>(P.st, P.mc, E, w, X, G.g, P.n COMM(C.c)); } catch(const std::exception& e) { threw = true; what = e.what(); }
  bool any = C.any(threw), all = !C.any(!threw);
  SOFT(any == all, "some ranks report failure (%s), others do not", what.c_str());
  if(any != all) return;
  if(threw) {
    SOFT(contains(what.c_str(), "grow enough") || contains(what.c_str(), "Converge"), "exception: %s", what.c_str());
    S.label(contains(what.c_str(), "grow enough") ? "did not grow" : "solver reports failure");
    // one determinant couples to all others within reach, so a single step to the target suffices (later wave functions
    // may be decoupled from what is left by their spin, e.g. an open-shell triplet from closed-shell determinants)
    bool single = std::max(P.st.ntdets_min, P.st.grow_factor) >= P.st.ntdets_max;
    if(contains(what.c_str(), "grow enough") && single && !P.st.just_singles && P.dense && P.st.h_el_tol == 0 && !rot) {
      size_t deg = ref::apply_h(P.I, d0).size();
      SOFT(P.st.ntdets_max > deg, "stuck although %zu determinants are within reach of one", deg);
    }
    return;
  }
  SOFT(w.size() == P.st.ntdets_max, "stopped at %zu of %zu determinants", w.size(), P.st.ntdets_max);
  bool low = false;
  auto e = check_state<N>(P, G.I, w, X, E, &low);
  SOFT(e.empty(), "%s", e.c_str());
  if(rot) SOFT(std::fabs(lowest(G.I, P.all) - P.efci) < 1e-8 * hscale(P), "full CI energy of the rotated integrals is %.12g, of the original ones %.12g", lowest(G.I, P.all), P.efci);
  else SOFT(G.I.T == P.I.T && G.I.V == P.I.V, "integrals changed");
  e = same_everywhere<N>(C, w, X, E);
  SOFT(e.empty(), "%s", e.c_str());
  S.nontrivial(low && w.size() > 2);
  S.label("grown");
  if(w.size() == P.all.size()) S.label("grown to full CI");
  if(rot && w.size() >= P.st.rot_size_start) S.label("with rotation");
}
template <size_t N>
static void refine(Src& S, const SubComm& C, bool large = false) {
  quiet();
  auto P = gen_prob(S, large);
  size_t m = S.integer(2, P.all.size());
  if(P.all.size() < 2) throw pbt::Discard{};
  P.st.ntdets_max = m;
  P.st.refine_energy_tol = std::pow(10., -(double)S.integer(1, 8));
  P.st.max_refine_iter = S.integer(1, 12);
  auto p = S.perm(P.all.size());
  std::vector<Det> ds;
  for(size_t i = 0; i < m; ++i) ds.push_back(P.all[p[i]]);
  auto H = ref::hmat(P.I, ds);
  double E = ref::eigh(H, (int)m)[0];
  S.note("N=%zu ranks=%d %s size=%zu tol=%g maxit=%zu", N, C.size, descr(P).c_str(), m, P.st.refine_energy_tol, P.st.max_refine_iter);
  if(!C.in()) return;
  Gen<N> G(P.I);
  auto w = bitsets<N>(ds);
  std::vector<double> X(H.begin(), H.begin() + m);
  bool threw = false;
  std::string what;
  double E0 = E;
  try { std::tie(E, w, X) = macis::asci_refine<N>(P.st, P.mc, E, w, X, G.g, P.n COMM(C.c)); } catch(const std::exception& e) { threw = true; what = e.what(); }
  bool any = C.any(threw), all = !C.any(!threw);
  SOFT(any == all, "some ranks report failure (%s), others do not", what.c_str());
  if(any != all) return;
  // the same steps one by one
  {
    auto st = P.st;
    st.max_refine_iter = 1;
    st.refine_energy_tol = 1e300;
    auto v = bitsets<N>(ds);
    std::vector<double> Y(H.begin(), H.begin() + m);
    double F = E0;
    int outcome = 0;  // 1 converged, 2 failed, 3 too close to call
    for(size_t it = 0; it < P.st.max_refine_iter && !outcome; ++it) {
      double F1 = F;
      try { std::tie(F1, v, Y) = macis::asci_refine<N>(st, P.mc, F, v, Y, G.g, P.n COMM(C.c)); } catch(const std::exception&) { outcome = 2; break; }
      double d = std::fabs(F1 - F), tol = P.st.refine_energy_tol;
      if(std::fabs(d - tol) < 0.01 * tol + 1e-12) outcome = 3; else if(d < tol) outcome = 1;
      F = F1;
    }
    if(outcome == 0) SOFT(threw, "the energy still changes by more than %g after %zu steps, no failure reported", P.st.refine_energy_tol, P.st.max_refine_iter);
    if(outcome == 1) {
      SOFT(!threw, "step by step it converges, all at once it fails: %s", what.c_str());
      if(!threw) SOFT(std::fabs(F - E) < 2 * P.mc.ci_res_tol + 1e-9 * hscale(P), "step by step it ends at %.12g, all at once at %.12g", F, E);
    }
    if(outcome == 2) SOFT(threw, "a single step fails, all at once none does");
    if(outcome < 2) S.label(outcome ? "converges step by step" : "does not converge step by step");
  }
  if(threw) {
    SOFT(contains(what.c_str(), "efine did not") || contains(what.c_str(), "size can't change") || contains(what.c_str(), "Converge"), "exception: %s", what.c_str());
    S.label(contains(what.c_str(), "efine did not") ? "not converged" : contains(what.c_str(), "size can't") ? "size changed" : "solver reports failure");
    return;
  }
  SOFT(w.size() == m, "%zu determinants went in, %zu came out", m, w.size());
  bool low = false;
  auto e = check_state<N>(P, G.I, w, X, E, &low);
  SOFT(e.empty(), "%s", e.c_str());
  SOFT(G.I.T == P.I.T && G.I.V == P.I.V, "integrals changed");
  e = same_everywhere<N>(C, w, X, E);
  SOFT(e.empty(), "%s", e.c_str());
  S.nontrivial(low && m > 2 && m < P.all.size());
  S.label("refined");
  if(E < E0 - 1e-9) S.label("energy improved");
}
#ifdef SERIAL
PBT(grow, 1500, 20000, "three or more determinants and the lowest state reachable") { SubComm C(1, 0, false); if(S.below(2)) grow<128>(S, C); else grow<64>(S, C); }
PBT(refine, 1500, 20000, "a proper subset of three or more determinants") { SubComm C(1, 0, false); if(S.below(2)) refine<128>(S, C); else refine<64>(S, C); }
PBT(grow_large, 16, 300, "three or more determinants and the lowest state reachable; 7 orbitals, 147 to 735 determinants") { SubComm C(1, 0, false); if(S.below(2)) grow<128>(S, C, true); else grow<64>(S, C, true); }
PBT(refine_large, 8, 150, "a proper subset of three or more determinants; 7 orbitals, 147 to 735 determinants") { SubComm C(1, 0, false); if(S.below(2)) refine<128>(S, C, true); else refine<64>(S, C, true); }
#else
PBT(p_grow_large, 6, 120, "three or more determinants and the lowest state reachable; 7 orbitals, 147 to 735 determinants") { SubComm C = gen_comm(S, 2); if(S.below(2)) grow<128>(S, C, true); else grow<64>(S, C, true); }
PBT(p_grow, 800, 10000, "three or more determinants and the lowest state reachable") { SubComm C = gen_comm(S, 2); if(S.below(2)) grow<128>(S, C); else grow<64>(S, C); }
PBT(p_refine, 800, 10000, "a proper subset of three or more determinants") { SubComm C = gen_comm(S, 2); if(S.below(2)) refine<128>(S, C); else refine<64>(S, C); }
#endif
