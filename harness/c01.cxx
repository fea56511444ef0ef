// C01 bit-string utilities against bit-by-bit definitions
#include "pbt.hpp"
#include <macis/bitset_operations.hpp>
#include <macis/sd_operations.hpp>

using pbt::Src;

template <size_t N>
std::bitset<N> gen_bits(Src& S, bool nonempty = false) {
  std::bitset<N> b;
  switch(S.below(7)) {
    case 0: break;                                    // empty
    case 1: b.set(S.below(N)); break;                 // one bit
    case 2: for(size_t i = 0; i < 4; ++i) b.set(S.below(N)); break;
    case 3: b.set(); for(size_t i = S.below(4); i > 0; --i) b.reset(S.below(N)); break;
    case 4: {                                         // a run of ones
      size_t lo = S.below(N), hi = lo + S.below(N - lo + 1);
      for(size_t i = lo; i < hi; ++i) b.set(i);
      break;
    }
    case 5: {                                         // bits at word edges
      static const size_t e[] = {0, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 95, 96, 127, 128, 191, 192, 255};
      for(size_t i = 0; i < 4; ++i) { size_t p = e[S.below(sizeof(e) / sizeof(*e))]; if(p < N) b.set(p); }
      break;
    }
    default:
      for(size_t i = 0; i < N; i += 32) {
        uint64_t w = S.below(1ull << 32);
        for(size_t j = 0; j < 32 && i + j < N; ++j) b[i + j] = (w >> j) & 1;
      }
  }
  if(nonempty && b.none()) b.set(S.below(N));
  return b;
}
template <size_t N> using IC = std::integral_constant<size_t, N>;

template <class F>
void any_width(Src& S, F f) {
  switch(S.below(9)) {
    case 0: return f(IC<8>{});
    case 1: return f(IC<16>{});
    case 2: return f(IC<32>{});
    case 3: return f(IC<64>{});
    case 4: return f(IC<128>{});
    case 5: return f(IC<256>{});
    case 6: return f(IC<48>{});
    case 7: return f(IC<100>{});
    default: return f(IC<192>{});
  }
}

PBT(scan, 40000, 600000, "string neither empty nor full; width from {8,16,32,48,64,100,128,192,256}") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    auto b = gen_bits<N>(S);
    std::vector<uint32_t> want;
    for(size_t i = 0; i < N; ++i) if(b[i]) want.push_back(i);
    S.note("N=%zu bits=%s", N, b.to_string().c_str());
    S.label("N=" + std::to_string(N));
    S.nontrivial(!want.empty() && want.size() < N);
    std::vector<uint32_t> got(3, 77);
    macis::bits_to_indices(b, got);
    REQ(got == want, "bits_to_indices (in place) wrong, %zu vs %zu entries", got.size(), want.size());
    REQ(macis::bits_to_indices(b) == want, "bits_to_indices wrong");
    if(!want.empty()) {
      REQ(macis::ffs(b) == want.front() + 1, "ffs=%u want %u", (unsigned)macis::ffs(b), want.front() + 1);
      REQ(macis::fls(b) == want.back(), "fls=%u want %u", (unsigned)macis::fls(b), want.back());
    }
  });
}

PBT(integers, 20000, 200000, "nonzero integer argument") {
  uint64_t x = S.bits64() >> S.below(64);
  if(!x) x = 1;
  S.note("x=%llx", (unsigned long long)x);
  S.nontrivial();
  int hi = 0;
  for(int i = 0; i < 64; ++i) if((x >> i) & 1) hi = i;
  REQ((int)macis::fls((unsigned long)x) == hi);
  REQ((int)macis::fls((unsigned long long)x) == hi);
  REQ((int)macis::clz((unsigned long)x) == 63 - hi);
  REQ((int)macis::clz((unsigned long long)x) == 63 - hi);
  unsigned y = (unsigned)x ? (unsigned)x : 1u;
  int hy = 0;
  for(int i = 0; i < 32; ++i) if((y >> i) & 1) hy = i;
  REQ((int)macis::fls(y) == hy);
  REQ((int)macis::clz(y) == 31 - hy);
}

PBT(to_int, 20000, 200000, "string has a set bit") {
  auto chk = [&](auto ic) {
    constexpr size_t N = ic;
    auto b = gen_bits<N>(S);
    S.note("N=%zu bits=%s", N, b.to_string().c_str());
    S.nontrivial(b.any());
    unsigned __int128 v = 0;
    for(size_t i = 0; i < N; ++i) if(b[i]) v |= (unsigned __int128)1 << i;
    REQ((unsigned __int128)macis::to_uint128(b) == v, "to_uint128");
    REQ(macis::fast_to_ullong(b) == (unsigned long long)v, "fast_to_ullong");
    if constexpr(N <= 32) REQ(macis::fast_to_ulong(b) == (unsigned long)v, "fast_to_ulong");
  };
  switch(S.below(5)) {
    case 0: return chk(IC<8>{});
    case 1: return chk(IC<16>{});
    case 2: return chk(IC<32>{});
    case 3: return chk(IC<64>{});
    default: return chk(IC<128>{});
  }
}

PBT(masks, 20000, 200000, "mask neither empty nor full") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    size_t i = S.edgy(0, N);
    S.note("N=%zu i=%zu", N, i);
    S.nontrivial(i > 0 && i < N);
    auto m = macis::full_mask<N>(i);
    for(size_t k = 0; k < N; ++k) REQ(m[k] == (k < i), "full_mask<%zu>(%zu) bit %zu", N, i, k);
  });
}

template <size_t N, size_t M>
void width_pair(Src& S) {
  S.label(pbt::fmt("%zu/%zu", N, M));
  {
    auto m = macis::full_mask<N, M>();
    for(size_t k = 0; k < M; ++k) REQ(m[k] == (k < N), "full_mask<%zu,%zu> bit %zu", N, M, k);
  }
  auto b = gen_bits<M>(S);
  S.note("trunc %zu<-%zu bits=%s", N, M, b.to_string().c_str());
  S.nontrivial(b.any());
  auto t = macis::truncate_bitset<N>(b);
  static_assert(std::is_same_v<decltype(t), std::bitset<N>>);
  for(size_t k = 0; k < N; ++k) REQ(t[k] == b[k], "truncate_bitset<%zu,%zu> bit %zu", N, M, k);
  auto e = macis::expand_bitset<M>(t);
  static_assert(std::is_same_v<decltype(e), std::bitset<M>>);
  for(size_t k = 0; k < M; ++k) REQ(e[k] == (k < N && t[k]), "expand_bitset<%zu,%zu> bit %zu", M, N, k);
}

PBT(widths, 20000, 200000, "string has a set bit; 14 pairs of narrow/wide widths") {
  switch(S.below(14)) {
    case 0: return width_pair<8, 16>(S);
    case 1: return width_pair<16, 32>(S);
    case 2: return width_pair<32, 64>(S);
    case 3: return width_pair<64, 128>(S);
    case 4: return width_pair<128, 256>(S);
    case 5: return width_pair<16, 64>(S);
    case 6: return width_pair<32, 128>(S);
    case 7: return width_pair<64, 256>(S);
    case 8: return width_pair<64, 64>(S);
    case 9: return width_pair<48, 100>(S);
    case 10: return width_pair<20, 32>(S);
    case 11: return width_pair<100, 200>(S);
    case 12: return width_pair<33, 64>(S);
    default: return width_pair<65, 128>(S);
  }
}

template <size_t N>
void halves(Src& S) {
  auto b = gen_bits<N>(S);
  S.note("N=%zu bits=%s", N, b.to_string().c_str());
  S.nontrivial(b.any());
  auto lo = macis::bitset_lo_word(b);
  auto hi = macis::bitset_hi_word(b);
  for(size_t i = 0; i < N / 2; ++i) {
    REQ(lo[i] == b[i], "lo word bit %zu", i);
    REQ(hi[i] == b[i + N / 2], "hi word bit %zu", i);
  }
  auto s = macis::to_canonical_string(b);
  REQ(s.size() == N / 2, "string length %zu", s.size());
  for(size_t i = 0; i < N / 2; ++i) {
    char w = b[i] ? (b[i + N / 2] ? '2' : 'u') : (b[i + N / 2] ? 'd' : '0');
    REQ(s[i] == w, "canonical string position %zu: %c want %c", i, s[i], w);
  }
  REQ(macis::from_canonical_string<N>(s) == b, "string round trip");
}
PBT(halves_strings, 20000, 200000, "string has a set bit; widths 64, 128") {
  if(S.below(2)) halves<64>(S); else halves<128>(S);
}

PBT(from_string, 20000, 200000, "occupation string shorter than the width or with an occupied orbital") {
  auto chk = [&](auto ic) {
    constexpr size_t N = ic;
    size_t len = S.edgy(0, N / 2);
    std::string s;
    for(size_t i = 0; i < len; ++i) s += "0ud2"[S.below(4)];
    S.note("N=%zu string=%s", N, s.c_str());
    S.nontrivial(len > 0);
    auto b = macis::from_canonical_string<N>(s);
    for(size_t i = 0; i < N / 2; ++i) {
      char c = i < len ? s[i] : '0';
      REQ(b[i] == (c == 'u' || c == '2'), "alpha bit %zu", i);
      REQ(b[i + N / 2] == (c == 'd' || c == '2'), "beta bit %zu", i);
    }
    if constexpr(N == 64 || N == 128) {
      auto r = macis::to_canonical_string(b);
      REQ(r == s + std::string(N / 2 - len, '0'), "back conversion gives %s", r.c_str());
    }
  };
  switch(S.below(5)) {
    case 0: return chk(IC<8>{});
    case 1: return chk(IC<16>{});
    case 2: return chk(IC<64>{});
    case 3: return chk(IC<128>{});
    default: return chk(IC<256>{});
  }
}

PBT(order, 40000, 600000, "the two strings differ") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    auto x = gen_bits<N>(S);
    auto y = x;
    switch(S.below(3)) {
      case 0: for(size_t k = S.below(3); k > 0; --k) y.flip(S.below(N)); break;
      case 1: y = gen_bits<N>(S); break;
      default: { size_t p = S.below(N); y.flip(p); for(size_t k = 0; k < p; ++k) if(S.below(2)) y.flip(k); }
    }
    int cmp = 0;
    for(int i = N - 1; i >= 0 && !cmp; --i) if(x[i] != y[i]) cmp = x[i] ? 1 : -1;
    S.note("N=%zu x=%s y=%s", N, x.to_string().c_str(), y.to_string().c_str());
    S.label("N=" + std::to_string(N));
    S.nontrivial(cmp != 0);
    REQ(macis::bitset_less(x, y) == (cmp < 0), "bitset_less(x,y), unsigned comparison gives %d", cmp);
    REQ(macis::bitset_less(y, x) == (cmp > 0), "bitset_less(y,x), unsigned comparison gives %d", cmp);
    macis::bitset_less_comparator<N> lt;
    REQ(lt(x, y) == (cmp < 0), "comparator");
    REQ(!lt(x, x), "irreflexive");
  });
}
