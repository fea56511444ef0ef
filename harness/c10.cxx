// C10 constraints of the distributed search
#include "ham.hpp"
#include "quiet.hpp"
#include <macis/asci/determinant_search.hpp>
#ifdef PBT_MPI
#include "mpi.hpp"
#endif
using pbt::Src;
using U = uint64_t;

// does the alpha string x satisfy: contains all of C, its other electrons below C's lowest orbital
static bool sat(U x, U C) {
  if((x & C) != C) return false;
  U rest = x & ~C;
  if(!C) return true;
  U low = C & -C;
  return rest < low;  // every bit of rest is below low
}
#ifndef PBT_MPI
template <size_t N>
struct Con { U C; macis::wfn_constraint<N> c; };
// triplet, quadruplet or deeper constraint built the way the library builds them
template <size_t N>
Con<N> gen_con(Src& S, int n) {
  std::set<int> o;
  int k = 3 + (int)S.below(std::min(4, n - 2));
  auto w = ref::gen_string(S, n, k);
  std::vector<int> v;
  for(int i = n - 1; i >= 0; --i) if((w >> i) & 1) v.push_back(i);
  Con<N> r{w, {}};
  if(k == 4 && S.coin()) r.c = macis::make_quad<N>(v[0], v[1], v[2], v[3]);
  else {
    r.c = macis::make_triplet<N>(v[0], v[1], v[2]);
    for(int i = 3; i < k; ++i) {  // one more orbital, as dist_constraint_general refines
      r.c.C.flip(v[i]);
      r.c.B >>= (r.c.C_min - v[i]);
      r.c.C_min = v[i];
    }
  }
  return r;
}
template <size_t N>
void gens(Src& S, int nmax) {
  int n = S.edgy(3, nmax);
  auto con = gen_con<N>(S, n);
  int k = ref::popc(con.C);
  int na = S.edgy(0, n);
  // a string near the constraint, so that something is generated
  U x;
  if(S.coin(3, 4)) {
    U y = con.C; int low = __builtin_ctzll(con.C);
    int extra = low ? (int)S.below(low + 1) : 0;
    y |= ref::gen_string(S, low, extra);
    ref::Det d{y, 0}; d = excite(S, d, n, S.below(4), 0); x = d.a;
  } else x = ref::gen_string(S, n, na);
  std::bitset<N> det(x), O = macis::full_mask<N>(n), C = con.c.C, B = con.c.B;
  S.note("N=%zu norb=%d det=%llx C=%llx", N, n, (unsigned long long)x, (unsigned long long)con.C);
  REQ(C == std::bitset<N>(con.C), "constraint mask");
  REQ(con.c.C_min == (unsigned)__builtin_ctzll(con.C), "C_min");
  std::set<U> ws, wd;
  for(int i = 0; i < n; ++i) if((x >> i) & 1) for(int a = 0; a < n; ++a) if(!((x >> a) & 1)) {
    U y = x ^ (1ull << i) ^ (1ull << a);
    if(sat(y, con.C)) ws.insert(y);
    for(int j = i + 1; j < n; ++j) if((x >> j) & 1) for(int b = a + 1; b < n; ++b) if(!((x >> b) & 1)) {
      U z = y ^ (1ull << j) ^ (1ull << b);
      if(sat(z, con.C)) wd.insert(z);
    }
  }
  S.nontrivial(!ws.empty() || !wd.empty());
  if(!ws.empty()) S.label("singles"); if(!wd.empty()) S.label("doubles");
  S.label(pbt::fmt("%d-orbital constraint", k));
  std::vector<std::bitset<N>> s(S.below(3), std::bitset<N>(5)), d(S.below(3), std::bitset<N>(5));  // stale content must go
  macis::generate_constraint_singles(det, C, O, B, s);
  macis::generate_constraint_doubles(det, C, O, B, d);
  auto cmp = [&](const std::vector<std::bitset<N>>& got, const std::set<U>& want, const char* what) {
    std::set<U> g;
    for(auto& w : got) {
      REQ((w >> 64).none() || N == 64, "%s: high bits", what);
      U y = (w & macis::full_mask<64, N>()).to_ullong();
      REQ(g.insert(y).second, "%s: %llx generated twice", what, (unsigned long long)y);
      REQ(want.count(y), "%s: %llx generated, not among the %zu expected", what, (unsigned long long)y, want.size());
    }
    REQ(g.size() == want.size(), "%s: %zu generated, %zu expected", what, g.size(), want.size());
  };
  cmp(s, ws, "singles");
  cmp(d, wd, "doubles");
  REQ(macis::count_constraint_singles(det, C, O, B) == ws.size(), "count of singles %u want %zu", macis::count_constraint_singles(det, C, O, B), ws.size());
  REQ(macis::count_constraint_doubles(det, C, O, B) == wd.size(), "count of doubles %u want %zu", macis::count_constraint_doubles(det, C, O, B), wd.size());
  REQ(macis::satisfies_constraint(det, C, con.c.C_min) == sat(x, con.C), "satisfies_constraint");
  size_t nos = S.below(5), nod = S.below(7);
  size_t h = macis::constraint_histogram(det, nos, nod, C, O, B), want = ws.size() + wd.size() + ws.size() * nos + (sat(x, con.C) ? nos + nod + 1 : 0);
  REQ(h == want, "work estimate %zu want %zu", h, want);
}
PBT(generators, 20000, 300000, "at least one excitation satisfies the constraint") {
  switch(S.below(3)) {
    case 0: return gens<64>(S, 9);
    case 1: return gens<128>(S, 9);
    default: if(S.coin(1, 4)) { if(S.coin()) gens<128>(S, 62); else gens<64>(S, 30); } else gens<128>(S, 16);
  }
}
#else
template <size_t N>
void cover(Src& S, bool wide) {
  quiet();
  SubComm Cm = gen_comm(S);
  int n = wide ? S.coin() ? wide_norb<N>(S) : (int)S.integer(10, 18) : (int)S.edgy(1, N == 64 ? 8 : 9), na = wide ? (int)S.integer(2, 5) : (int)S.edgy(0, n);
  int level = S.integer(0, wide ? n > 18 ? 1 : 2 : 4);
  size_t m = 1 + S.below(wide ? 2 : 6);
  std::set<U> us;
  for(size_t i = 0; i < m; ++i) us.insert(ref::gen_string(S, n, na));
  size_t nos = S.below(20), nod = S.below(40);
  std::vector<std::bitset<N>> ua;
  for(auto u : us) ua.push_back(std::bitset<N>(u));
  S.note("N=%zu norb=%d nalpha=%d level=%d strings=%zu ranks=%d", N, n, na, level, us.size(), Cm.size);
  S.label(na < 3 ? "fewer than three electrons" : na <= 3 + level ? "electrons within constraint depth" : "more electrons");
  if(!Cm.in()) return;
  auto cons = macis::dist_constraint_general<N>(level, n, nos, nod, ua, Cm.c);
  std::vector<U> mine;
  for(auto& c : cons) {
    U w = c.C.to_ullong();
    mine.push_back(w);
    SOFT(w == 0 || c.C_min == (unsigned)__builtin_ctzll(w), "C_min %u of %llx", c.C_min, (unsigned long long)w);
    if(w) SOFT(c.B == std::bitset<N>((1ull << __builtin_ctzll(w)) - 1), "mask of %llx", (unsigned long long)w);
  }
  // which strings the work of this rank can produce, with multiplicity
  auto all = Cm.gatherv(mine);
  S.nontrivial(all.size() > 1);
  std::set<U> reach;
  std::map<U, std::pair<std::set<U>, std::set<U>>> exc;
  for(auto u : us) {
    auto& [sg, db] = exc[u];
    reach.insert(u);
    for(int i = 0; i < n; ++i) if((u >> i) & 1) for(int a = 0; a < n; ++a) if(!((u >> a) & 1)) {
      U y = u ^ (1ull << i) ^ (1ull << a);
      sg.insert(y);
      for(int j = i + 1; j < n; ++j) if((u >> j) & 1) for(int b = a + 1; b < n; ++b) if(!((u >> b) & 1)) db.insert(y ^ (1ull << j) ^ (1ull << b));
    }
    reach.insert(sg.begin(), sg.end());
    reach.insert(db.begin(), db.end());
  }
  for(auto x : reach) {
    int cnt = 0;
    for(auto c : all) cnt += sat(x, c);
    SOFT(cnt == 1, "alpha string %llx belongs to %d constraints", (unsigned long long)x, cnt);
  }
  // and the generators, run over all constraints, produce each excitation exactly once
  for(auto u : us) {
    std::map<U, int> s, d;
    std::vector<std::bitset<N>> v;
    for(auto& c : cons) {
      v.clear(); macis::generate_constraint_singles(std::bitset<N>(u), c.C, macis::full_mask<N>(n), c.B, v);
      for(auto& y : v) s[y.to_ullong()]++;
      v.clear(); macis::generate_constraint_doubles(std::bitset<N>(u), c.C, macis::full_mask<N>(n), c.B, v);
      for(auto& y : v) d[y.to_ullong()]++;
    }
    std::vector<U> ls, ld;
    for(auto& [k, c] : s) for(int i = 0; i < c; ++i) ls.push_back(k);
    for(auto& [k, c] : d) for(int i = 0; i < c; ++i) ld.push_back(k);
    auto gs = Cm.gatherv(ls), gd = Cm.gatherv(ld);
    std::sort(gs.begin(), gs.end()); std::sort(gd.begin(), gd.end());
    std::vector<U> ws, wd;
    ws.assign(exc[u].first.begin(), exc[u].first.end());
    wd.assign(exc[u].second.begin(), exc[u].second.end());
    SOFT(gs == ws, "singles of %llx: %zu generated over all ranks, %zu exist", (unsigned long long)u, gs.size(), ws.size());
    SOFT(gd == wd, "doubles of %llx: %zu generated over all ranks, %zu exist", (unsigned long long)u, gd.size(), wd.size());
  }
}
PBT(coverage, 2500, 30000, "at least two constraints were distributed") {
  if(S.below(2)) cover<128>(S, false); else cover<64>(S, false);
}
PBT(wide_coverage, 60, 1000, "at least two constraints were distributed; 10 to 40 orbitals, two to five alpha electrons") {
  if(S.below(2)) cover<128>(S, true); else cover<64>(S, true);
}
#endif
