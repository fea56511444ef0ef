// glue between ref:: models and MACIS Hamiltonian generators
#pragma once
#include "ref.hpp"
#include <macis/hamiltonian_generator/double_loop.hpp>

template <size_t N>
struct Gen {
  ref::Ints I;  // the generator works on (and may change) these buffers
  macis::DoubleLoopHamiltonianGenerator<N> g;
  explicit Gen(const ref::Ints& i)
      : I(i),
        g(macis::matrix_span<double>(I.T.data(), I.n, I.n),
          macis::rank4_span<double>(I.V.data(), I.n, I.n, I.n, I.n)) {}
  Gen(const Gen&) = delete;
};

template <size_t N>
std::vector<std::bitset<N>> bitsets(const std::vector<ref::Det>& d) {
  std::vector<std::bitset<N>> r;
  for(auto& x : d) r.push_back(ref::to_bits<N>(x));
  return r;
}

inline std::vector<uint32_t> occ_list(uint64_t x) {
  std::vector<uint32_t> r;
  for(int i = 0; i < 64; ++i) if((x >> i) & 1) r.push_back(i);
  return r;
}
inline double vscale(const ref::Ints& I) {
  double m = 1;
  for(auto x : I.T) m = std::max(m, std::fabs(x));
  for(auto x : I.V) m = std::max(m, std::fabs(x));
  return m;
}
// excite k by up to `deg` random substitutions (spin conserving)
inline ref::Det excite(ref::Src& S, ref::Det k, int n, int da, int db) {
  auto go = [&](uint64_t w, int d) {
    std::vector<int> o, v;
    for(int i = 0; i < n; ++i) ((w >> i) & 1 ? o : v).push_back(i);
    for(int t = 0; t < d && !o.empty() && !v.empty(); ++t) {
      size_t i = S.below(o.size()), a = S.below(v.size());
      w ^= (1ull << o[i]) | (1ull << v[a]);
      o.erase(o.begin() + i);
      v.erase(v.begin() + a);
    }
    return w;
  };
  k.a = go(k.a, da);
  k.b = go(k.b, db);
  return k;
}
inline ref::Det gen_det(ref::Src& S, int n, int na, int nb) {
  ref::Det d;
  d.a = ref::gen_string(S, n, na);
  d.b = ref::gen_string(S, n, nb);
  return d;
}

// orbital counts that reach the upper part of a spin string, where word and integer sizes matter
template <size_t N>
int wide_norb(ref::Src& S, bool whole = false) {
  if(N <= 64) return S.coin() ? 32 : (int)S.integer(17, 32);
  if(whole && S.coin(1, 20)) return 64;
  return S.coin(1, 4) ? 33 : (int)S.integer(33, 40);
}
// a determinant whose electrons sit anywhere, the top orbital included half of the time
inline ref::Det wide_det(ref::Src& S, int n, int na, int nb) {
  auto d = gen_det(S, n, na, nb);
  for(auto* w : {&d.a, &d.b}) if(*w && S.coin()) { if(!((*w >> (n - 1)) & 1)) { *w &= *w - 1; *w |= 1ull << (n - 1); } }
  return d;
}
