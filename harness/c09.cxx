// C09 determinant search scores (serial search; built with MPI, one process)
#include "asci.hpp"
using pbt::Src;

template <size_t N>
void search(Src& S, int nmin, int nmax, int emax, size_t maxcore) {
  quiet();
  auto c = gen_search(S, nmin, nmax, emax, maxcore, false);
  S.note("N=%zu %s", N, descr(c).c_str());
  S.nontrivial(c.score.size() > 1 && c.ndets_max > c.core.size() && c.ndets_max < c.core.size() + c.score.size());
  if(c.st.pair_size_max < 100) S.label("small buffer");
  if(c.st.pair_size_max < 100 && c.st.rv_prune_tol > 0) S.label("lossy pruning");
  if(c.st.just_singles) S.label("just singles");
  if(c.st.h_el_tol > 1e-4) S.label("screening");
  Gen<N> G(c.I);
  auto got = run_search<N>(c, G, MPI_COMM_SELF);
  auto e = check_answer<N>(c, got);
  REQ(e.empty(), "%s", e.c_str());
  REQ(G.I.T == c.I.T && G.I.V == c.I.V, "integrals changed");
  // the scores themselves
  auto B = bitsets<N>(c.core);
  auto pairs = macis::asci_contributions_standard<N>(c.st, B.begin(), B.end(), c.E0, c.C, c.n, G.g.T(), G.g.G_red(), G.g.V_red(), G.g.G(), G.g.V(), G.g);
  std::map<ref::Det, double> sum;
  for(auto& p : pairs) sum[ref::from_bits<N>(p.state)] += p.rv;
  auto cmp = [&](const std::map<ref::Det, double>& m, const char* what) {
    for(auto& [d, x] : m) {
      auto it = c.raw.find(d);
      double want = it == c.raw.end() ? 0 : it->second;
      REQ(std::fabs(x - want) <= c.error(d), "%s score of %s is %.12g want %.12g", what, ref::str(d, c.n).c_str(), x, want);
    }
    for(auto& [d, x] : c.raw) if(std::fabs(x) > c.error(d)) REQ(m.count(d), "%s: no score for %s, want %.12g", what, ref::str(d, c.n).c_str(), x);
  };
  cmp(sum, "contribution");
  macis::sort_and_accumulate_asci_pairs(pairs);
  std::map<ref::Det, double> acc;
  for(auto& p : pairs) { auto d = ref::from_bits<N>(p.state); REQ(!acc.count(d), "duplicate after accumulation"); acc[d] = p.rv; }
  cmp(acc, "accumulated");
}
PBT(search_small, 20000, 200000, "more candidates than are asked for, at least one asked for") {
  if(S.below(2)) search<128>(S, 1, 6, 6, 8); else search<64>(S, 1, 6, 6, 8);
}
PBT(search_wide, 120, 2500, "more candidates than are asked for; 7 to 12 (1 in 40: 22 to 40) orbitals, up to 3+3 electrons") {
  bool big = S.below(40) == 39;
  if(S.below(2)) { int n = big ? (int)S.oneof({22, 33, 40}) : 0; search<128>(S, big ? n : 7, big ? n : 12, 2, 3); }
  else { int n = big ? (int)S.oneof({22, 31, 32}) : 0; search<64>(S, big ? n : 7, big ? n : 12, big ? 2 : 3, 2); }
}

// accumulation on arbitrary lists of pairs
PBT(accumulate, 6000, 60000, "at least one determinant appears twice") {
  using W = std::bitset<64>;
  bool lots = S.coin(1, 200);
  size_t n = lots ? (size_t)S.integer(40, 6000) : S.below(40), range = 1 + S.below(lots ? 3000 : 12);
  pbt::Bulk lb{S.seed()};
  if(lots) S.label("thousands of pairs");
  macis::asci_contrib_container<W> v;
  std::map<uint64_t, double> sum, mx;
  bool dup = false;
  for(size_t i = 0; i < n; ++i) {
    uint64_t k = lots ? lb.u(3 * i) % range * (lb.u(3 * i + 1) % 2 ? 0x100000001ull : 1) : S.below(range) * (S.below(2) ? 0x100000001ull : 1);
    double x = (lots ? (double)(lb.u(3 * i + 2) % 17) - 8 : (double)S.integer(-8, 8)) / 4;
    dup |= sum.count(k);
    mx[k] = mx.count(k) ? std::max(mx[k], x) : x;
    sum[k] += x;
    v.push_back({W(k), x});
  }
  S.nontrivial(dup);
  S.note("%zu pairs over %zu determinants", n, sum.size());
  auto a = v, b = v;
  macis::sort_and_accumulate_asci_pairs(a);
  REQ(a.size() == sum.size(), "%zu unique, want %zu", a.size(), sum.size());
  for(auto& p : a) { uint64_t k = p.state.to_ullong(); REQ(sum.count(k) && sum[k] == p.rv, "sum for %llx is %g", (unsigned long long)k, p.rv); }
  for(size_t i = 1; i < a.size(); ++i) REQ(a[i - 1].state.to_ullong() < a[i].state.to_ullong(), "not sorted");
  // sub-range form leaves the front alone
  size_t at = n ? S.below(n + 1) : 0;
  auto c = v;
  auto u = macis::sort_and_accumulate_asci_pairs(c.begin() + at, c.end());
  for(size_t i = 0; i < at; ++i) REQ(c[i].state == v[i].state && c[i].rv == v[i].rv, "element %zu before the range changed", i);
  std::map<uint64_t, double> part;
  for(size_t i = at; i < n; ++i) part[v[i].state.to_ullong()] += v[i].rv;
  REQ((size_t)(u - c.begin()) - at == part.size());
  for(auto it = c.begin() + at; it != u; ++it) REQ(part[it->state.to_ullong()] == it->rv);
  macis::keep_only_largest_copy_asci_pairs(b);
  REQ(b.size() == mx.size());
  for(auto& p : b) REQ(mx[p.state.to_ullong()] == p.rv, "largest copy for %llx is %g want %g", p.state.to_ullong(), p.rv, mx[p.state.to_ullong()]);
}
PBT(reorder, 3000, 30000, "three or more determinants") {
  size_t n = S.coin(1, 100) ? (size_t)S.integer(20, 5000) : S.below(20);
  pbt::Bulk lb{S.seed()};
  std::vector<std::bitset<64>> d; std::vector<double> C;
  std::map<uint64_t, double> m;
  for(size_t i = 0; i < n; ++i) { d.push_back(std::bitset<64>(i + 1)); C.push_back((n > 20 ? (double)(lb.u(i) % 4001) - 2000 : (double)S.integer(-6, 6)) / 3); m[i + 1] = C[i]; }
  S.nontrivial(n > 2); S.note("%zu determinants", n);
  macis::reorder_ci_on_coeff(d, C);
  REQ(d.size() == n && C.size() == n);
  std::set<uint64_t> seen;
  for(size_t i = 0; i < n; ++i) {
    REQ(seen.insert(d[i].to_ullong()).second && m.count(d[i].to_ullong()), "not a permutation");
    REQ(m[d[i].to_ullong()] == C[i], "coefficient moved to another determinant");
    if(i) REQ(std::fabs(C[i]) <= std::fabs(C[i - 1]), "not ordered by weight at %zu", i);
  }
}
