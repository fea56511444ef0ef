// C11 distributed determinant search
#include "asci.hpp"
#include "mpi.hpp"
using pbt::Src;

template <size_t N>
void search(Src& S, int nmin, int nmax, int emax, size_t maxcore) {
  quiet();
  SubComm Cm = gen_comm(S, 2);
  auto c = gen_search(S, nmin, nmax, emax, maxcore, true);
  if(nmin > 20) c.st.constraint_level = std::min(c.st.constraint_level, 1);  // deep constraints over many orbitals take long
  S.note("N=%zu ranks=%d %s", N, Cm.size, descr(c).c_str());
  S.nontrivial(c.score.size() > 1 && c.ndets_max > c.core.size());
  if(c.ndets_max >= c.core.size() + c.score.size()) S.label("everything requested");
  if(c.ndets_max == c.core.size()) S.label("nothing new requested");
  if(c.na < 3) S.label("fewer than three alpha electrons");
  if(c.st.pair_size_max < 100) S.label("small buffer");
  if(!Cm.in()) return;
  Gen<N> G(c.I);
  auto got = run_search<N>(c, G, Cm.c);
  auto e = check_answer<N>(c, got);
  SOFT(e.empty(), "%s", e.c_str());
  // the same list everywhere
  std::vector<uint64_t> mine;
  for(auto& g : got) { auto d = ref::from_bits<N>(g); mine.push_back(d.a); mine.push_back(d.b); }
  std::vector<int> cnt;
  auto all = Cm.gatherv(mine, &cnt);
  size_t off = 0;
  std::set<ref::Det> first;
  for(int r = 0; r < Cm.size; ++r) {
    std::set<ref::Det> s;
    for(int i = 0; i < cnt[r]; i += 2) s.insert({all[off + i], all[off + i + 1]});
    off += cnt[r];
    if(!r) first = s; else SOFT(s == first, "rank %d returns other determinants than rank 0", r);
  }
  // as good as the serial search
  if(c.st.h_el_tol == 0 && (c.st.rv_prune_tol == 0 || c.st.pair_size_max > 10000)) {
    auto ser = run_search<N>(c, G, MPI_COMM_SELF);
    auto scores = [&](const std::vector<std::bitset<N>>& v) {
      std::vector<double> r;
      for(auto& g : v) { auto it = c.score.find(ref::from_bits<N>(g)); if(it != c.score.end() && std::fabs(it->second) > 2 * c.error(it->first)) r.push_back(std::fabs(it->second)); }
      std::sort(r.begin(), r.end());
      return r;
    };
    double worst = 0;
    for(auto& [d, x] : c.err) worst = std::max(worst, x);
    auto a = scores(got), b = scores(ser);
    SOFT(a.size() == b.size(), "%zu scored determinants in parallel, %zu in serial", a.size(), b.size());
    for(size_t i = 0; i < std::min(a.size(), b.size()); ++i) SOFT(std::fabs(a[i] - b[i]) <= 2 * worst, "score %zu: %.12g in parallel, %.12g in serial", i, a[i], b[i]);
  }
}
PBT(search_small, 8000, 40000, "at least two candidates and room for one") {
  if(S.below(2)) search<128>(S, 1, 6, 6, 8); else search<64>(S, 1, 6, 6, 8);
}
PBT(search_wide, 120, 800, "at least two candidates and room for one; 7 to 16 (1 in 20: 22 or 33) orbitals") {
  bool big = S.below(20) == 19;
  if(S.below(2)) { int n = big ? (int)S.oneof({22, 33}) : 0; search<128>(S, big ? n : 7, big ? n : 16, big ? 2 : 3, big ? 1 : 3); }
  else search<64>(S, big ? 22 : 7, big ? 22 : 14, big ? 2 : 4, big ? 1 : 2);
}
