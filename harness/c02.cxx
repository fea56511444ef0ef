// C02 excitation / Hilbert-space generation: complete, unique, number conserving
#include "ref.hpp"
#include <macis/sd_operations.hpp>

using pbt::Src;
template <size_t N> using IC = std::integral_constant<size_t, N>;
template <size_t N> using BS = std::bitset<N>;

template <size_t N>
struct Lt {
  bool operator()(const BS<N>& a, const BS<N>& b) const {
    for(int i = N - 1; i >= 0; --i) if(a[i] != b[i]) return b[i];
    return false;
  }
};
template <size_t N>
void same(std::vector<BS<N>> got, std::vector<BS<N>> want, const char* what) {
  std::sort(got.begin(), got.end(), Lt<N>{});
  std::sort(want.begin(), want.end(), Lt<N>{});
  if(got != want) {
    std::vector<BS<N>> miss, extra;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss), Lt<N>{});
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra), Lt<N>{});
    throw pbt::Fail{pbt::fmt("%s: %zu generated, %zu expected; first missing %s, first extra %s", what,
                             got.size(), want.size(), miss.empty() ? "-" : miss[0].to_string().c_str(),
                             extra.empty() ? "-" : extra[0].to_string().c_str())};
  }
}
template <size_t N>
BS<N> gen_occ(Src& S, size_t norb, size_t nel) {
  std::vector<size_t> pos(norb);
  for(size_t i = 0; i < norb; ++i) pos[i] = i;
  BS<N> b;
  for(size_t i = 0; i < nel; ++i) {
    std::swap(pos[i], pos[i + S.below(norb - i)]);
    b.set(pos[i]);
  }
  return b;
}
// naive single/double excitations of a spin string within the given orbitals
template <size_t N>
std::vector<BS<N>> nsingles(const BS<N>& s, const std::vector<uint32_t>& orbs) {
  std::vector<BS<N>> r;
  for(auto i : orbs) if(s[i]) for(auto a : orbs) if(!s[a]) { auto x = s; x.reset(i); x.set(a); r.push_back(x); }
  return r;
}
template <size_t N>
std::vector<BS<N>> ndoubles(const BS<N>& s, const std::vector<uint32_t>& orbs) {
  std::vector<BS<N>> r;
  for(size_t i = 0; i < orbs.size(); ++i) if(s[orbs[i]])
    for(size_t j = 0; j < i; ++j) if(s[orbs[j]])
      for(size_t a = 0; a < orbs.size(); ++a) if(!s[orbs[a]])
        for(size_t b = 0; b < a; ++b) if(!s[orbs[b]]) {
          auto x = s; x.reset(orbs[i]); x.reset(orbs[j]); x.set(orbs[a]); x.set(orbs[b]); r.push_back(x);
        }
  return r;
}
std::vector<uint32_t> iota(size_t n) { std::vector<uint32_t> v(n); for(size_t i = 0; i < n; ++i) v[i] = i; return v; }
std::vector<uint32_t> gen_as(Src& S, size_t norb) {
  auto p = S.perm(norb);
  size_t k = S.edgy(0, norb);
  std::vector<uint32_t> r(p.begin(), p.begin() + k);
  if(S.coin()) std::sort(r.begin(), r.end());
  return r;
}

template <class F>
void any_width(Src& S, F f) {
  switch(S.below(6)) {
    case 0: return f(IC<8>{});
    case 1: return f(IC<16>{});
    case 2: return f(IC<32>{});
    case 3: return f(IC<64>{});
    case 4: return f(IC<128>{});
    default: return f(IC<100>{});
  }
}

PBT(occ_vir, 30000, 300000, "both occupied and virtual orbitals present") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(1, N), nel = S.edgy(0, norb);
    auto s = gen_occ<N>(S, norb, nel);
    S.note("N=%zu norb=%zu state=%s", N, norb, s.to_string().c_str());
    S.nontrivial(nel > 0 && nel < norb);
    std::vector<uint32_t> occ(5, 99), vir(7, 98), wo, wv;
    macis::bitset_to_occ_vir(norb, s, occ, vir);
    for(size_t i = 0; i < norb; ++i) (s[i] ? wo : wv).push_back(i);
    REQ(occ == wo, "occupied list");
    REQ(vir == wv, "virtual list");
    auto as = gen_as(S, norb);
    macis::bitset_to_occ_vir_as(norb, s, occ, vir, as);
    wo.clear(); wv.clear();
    for(auto i : as) (s[i] ? wo : wv).push_back(i);
    REQ(occ == wo, "active occupied list");
    REQ(vir == wv, "active virtual list");
  });
}

PBT(strings, 8000, 80000, "at least one single excitation exists") {
  any_width(S, [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.coin(1, 6) ? N : S.edgy(1, std::min<size_t>(N, 14));
    size_t nel = norb > 20 ? S.edgy(0, 3) : S.edgy(0, norb);
    if(norb > 20 && S.coin()) nel = norb - nel;  // few holes
    else if(norb > 20 && S.coin(1, 8)) nel = S.edgy(0, norb);
    auto s = gen_occ<N>(S, norb, nel);
    bool doubles = nel * (nel - 1) * (norb - nel) * (norb - nel - 1) < 160000 || nel * (norb - nel) == 0;
    auto as = gen_as(S, norb);
    S.note("N=%zu norb=%zu state=%s |as|=%zu", N, norb, s.to_string().c_str(), as.size());
    S.nontrivial(nel > 0 && nel < norb);
    auto orbs = iota(norb);
    std::vector<BS<N>> g1(2), g2(3);
    macis::generate_singles(norb, s, g1);
    same(g1, nsingles(s, orbs), "generate_singles");
    if(doubles) {
      macis::generate_doubles(norb, s, g2);
      same(g2, ndoubles(s, orbs), "generate_doubles");
      macis::generate_singles_doubles(norb, s, g1, g2);
      same(g1, nsingles(s, orbs), "generate_singles_doubles singles");
      same(g2, ndoubles(s, orbs), "generate_singles_doubles doubles");
      macis::generate_singles_doubles_as(norb, s, g1, g2, as);
      same(g1, nsingles(s, as), "generate_singles_doubles_as singles");
      same(g2, ndoubles(s, as), "generate_singles_doubles_as doubles");
    }
    macis::generate_singles_as(norb, s, g1, as);
    same(g1, nsingles(s, as), "generate_singles_as");
    // appenders on explicit occupied/virtual lists
    std::vector<uint32_t> occ, vir;
    for(auto i : as) (s[i] ? occ : vir).push_back(i);
    std::vector<BS<N>> a1, a2;
    macis::append_singles(s, occ, vir, a1);
    same(a1, nsingles(s, as), "append_singles");
    if(doubles) {
      macis::append_doubles(s, occ, vir, a2);
      same(a2, ndoubles(s, as), "append_doubles");
    }
  });
}

template <size_t N>
BS<N> join(const BS<N / 2>& a, const BS<N / 2>& b) {
  BS<N> r;
  for(size_t i = 0; i < N / 2; ++i) { r[i] = a[i]; r[i + N / 2] = b[i]; }
  return r;
}
template <size_t N>
void spin_case(Src& S) {
  constexpr size_t H = N / 2;
  size_t norb = S.coin(1, 5) ? H : S.edgy(1, 9);
  auto els = [&]() -> size_t {
    if(norb <= 12) return S.edgy(0, norb);
    size_t k = S.edgy(0, 2);
    return S.coin() ? norb - k : S.coin(1, 4) ? S.edgy(0, norb) : k;
  };
  size_t na = els(), nb = els();
  auto a = gen_occ<H>(S, norb, na), b = gen_occ<H>(S, norb, nb);
  double va = norb - (double)na, vb = norb - (double)nb, nd = na * va * nb * vb + na * (na - 1.) * va * (va - 1.) / 4 + nb * (nb - 1.) * vb * (vb - 1.) / 4;
  bool big = norb > 12 && nd > 20000;
  if(norb > 12 && !big) S.label("wide doubles");
  auto as = gen_as(S, norb);
  auto st = join<N>(a, b);
  S.note("N=%zu norb=%zu na=%zu nb=%zu state=%s", N, norb, na, nb, st.to_string().c_str());
  S.nontrivial((na > 0 && na < norb) || (nb > 0 && nb < norb));
  S.label(na == 0 || nb == 0 ? "empty shell" : na == norb || nb == norb ? "full shell" : "open");
  auto full = [&](const std::vector<uint32_t>& orbs, std::vector<BS<N>>& s1, std::vector<BS<N>>& s2, bool dbl) {
    s1.clear(); s2.clear();
    auto sa = nsingles<H>(a, orbs), sb = nsingles<H>(b, orbs);
    for(auto& x : sa) s1.push_back(join<N>(x, b));
    for(auto& x : sb) s1.push_back(join<N>(a, x));
    if(!dbl) return;
    for(auto& x : ndoubles<H>(a, orbs)) s2.push_back(join<N>(x, b));
    for(auto& x : ndoubles<H>(b, orbs)) s2.push_back(join<N>(a, x));
    for(auto& x : sa) for(auto& y : sb) s2.push_back(join<N>(x, y));
  };
  std::vector<BS<N>> w1, w2, g1(1), g2(2);
  auto orbs = iota(norb);
  full(orbs, w1, w2, !big);
  macis::generate_singles_spin(norb, st, g1);
  same(g1, w1, "generate_singles_spin");
  std::vector<BS<N>> d(4);
  macis::generate_cis_hilbert_space(norb, st, d);
  auto wc = w1; wc.push_back(st);
  same(d, wc, "generate_cis_hilbert_space");
  same(macis::generate_cis_hilbert_space(norb, st), wc, "generate_cis_hilbert_space (returned)");
  if(!big) {
    macis::generate_singles_doubles_spin(norb, st, g1, g2);
    same(g1, w1, "generate_singles_doubles_spin singles");
    same(g2, w2, "generate_singles_doubles_spin doubles");
    wc.insert(wc.end(), w2.begin(), w2.end());
    macis::generate_cisd_hilbert_space(norb, st, d);
    same(d, wc, "generate_cisd_hilbert_space");
    REQ(d[0] == st, "the reference is the first determinant");
    same(macis::generate_cisd_hilbert_space(norb, st), wc, "generate_cisd_hilbert_space (returned)");
  }
  full(as, w1, w2, !big);
  macis::generate_singles_spin_as(norb, st, g1, as);
  same(g1, w1, "generate_singles_spin_as");
  if(!big) {
    macis::generate_singles_doubles_spin_as(norb, st, g1, g2, as);
    same(g1, w1, "generate_singles_doubles_spin_as singles");
    same(g2, w2, "generate_singles_doubles_spin_as doubles");
  }
  // electron-pair residues
  std::vector<BS<N>> r, wr;
  macis::generate_residues(st, r);
  for(size_t i = 0; i < N; ++i) if(st[i]) for(size_t j = 0; j < i; ++j) if(st[j]) {
    auto x = st; x.reset(i); x.reset(j); wr.push_back(x);
  }
  same(r, wr, "generate_residues");
}
PBT(spin, 4000, 40000, "at least one single excitation exists; widths 64 and 128") {
  if(S.below(2)) spin_case<128>(S); else spin_case<64>(S);
}

PBT(hilbert, 3000, 30000, "more than one determinant") {
  auto go = [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(1, std::min<size_t>(N / 2, 8));
    size_t na = S.edgy(0, norb), nb = S.edgy(0, norb);
    S.note("N=%zu norb=%zu na=%zu nb=%zu", N, norb, na, nb);
    std::vector<BS<N>> want;
    for(auto& d : ref::hilbert(norb, na, nb)) want.push_back(ref::to_bits<N>(d));
    S.nontrivial(want.size() > 1);
    same(macis::generate_hilbert_space<N>(norb, na, nb), want, "generate_hilbert_space");
    size_t nb2 = S.edgy(1, std::min<size_t>(N, 12)), ns = S.edgy(0, nb2);
    std::vector<BS<N>> wc;
    for(uint64_t x = 0; x < (1ull << nb2); ++x) if(ref::popc(x) == (int)ns) {
      BS<N> b;
      for(size_t i = 0; i < nb2; ++i) b[i] = (x >> i) & 1;
      wc.push_back(b);
    }
    same(macis::generate_combs<N>(nb2, ns), wc, "generate_combs");
  };
  switch(S.below(4)) {
    case 0: return go(IC<16>{});
    case 1: return go(IC<32>{});
    case 2: return go(IC<64>{});
    default: return go(IC<128>{});
  }
}

// many orbitals, few electrons or few holes
static std::vector<std::vector<uint32_t>> few(size_t n, size_t k) {
  std::vector<std::vector<uint32_t>> r;
  if(k == 0) r.push_back({});
  if(k == 1) for(uint32_t i = 0; i < n; ++i) r.push_back({i});
  if(k == 2) for(uint32_t i = 0; i < n; ++i) for(uint32_t j = 0; j < i; ++j) r.push_back({i, j});
  return r;
}
PBT(wide, 200, 3000, "more than 20 orbitals and more than one determinant") {
  auto go = [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(1, N / 2), kc = S.below(3), ka = S.below(3), kb = S.below(ka == 2 ? 1 : ka == 1 ? 2 : 3);
    bool ha = S.coin(), hb = S.coin(), hc = S.coin(), swap = S.coin();
    if(swap) { std::swap(ka, kb); std::swap(ha, hb); }
    size_t nc = S.edgy(1, N);
    ka = std::min(ka, norb); kb = std::min(kb, norb); kc = std::min(kc, nc);
    auto str = [](size_t n, size_t k, bool holes, size_t off) {
      std::vector<BS<N>> v;
      for(auto& l : few(n, k)) {
        BS<N> b;
        if(holes) for(size_t i = 0; i < n; ++i) b[i + off] = 1;
        for(auto i : l) b.flip(i + off);
        v.push_back(b);
      }
      return v;
    };
    size_t na = ha ? norb - ka : ka, nb = hb ? norb - kb : kb;
    S.note("N=%zu norb=%zu na=%zu nb=%zu", N, norb, na, nb);
    std::vector<BS<N>> want;
    for(auto& a : str(norb, ka, ha, 0)) for(auto& b : str(norb, kb, hb, N / 2)) want.push_back(a | b);
    S.nontrivial(norb > 20 && want.size() > 1);
    same(macis::generate_hilbert_space<N>(norb, na, nb), want, "generate_hilbert_space");
    same(macis::generate_combs<N>(nc, hc ? nc - kc : kc), str(nc, kc, hc, 0), "generate_combs");
  };
  switch(S.below(4)) {
    case 0: return go(IC<64>{});
    case 1: return go(IC<128>{});
    case 2: return go(IC<100>{});
    default: return go(IC<256>{});
  }
}

PBT(hf, 20000, 200000, "some electrons and some empty orbitals") {
  auto go = [&](auto ic) {
    constexpr size_t N = ic;
    size_t norb = S.edgy(1, N / 2), na = S.edgy(0, norb), nb = S.edgy(0, norb);
    S.nontrivial(na + nb > 0 && na + nb < 2 * norb);
    auto d = macis::canonical_hf_determinant<N>(na, nb);
    for(size_t i = 0; i < N / 2; ++i) {
      REQ(d[i] == (i < na), "alpha bit %zu of HF(%zu,%zu)", i, na, nb);
      REQ(d[i + N / 2] == (i < nb), "beta bit %zu of HF(%zu,%zu)", i, na, nb);
    }
    std::vector<double> e(norb);
    int mode = S.below(3);
    for(auto& x : e) x = mode == 0 ? (double)S.below(4) : S.real() * 10;
    S.note("N=%zu norb=%zu na=%zu nb=%zu tied=%d", N, norb, na, nb, mode == 0);
    auto h = macis::canonical_hf_determinant<N>(na, nb, e);
    for(int sp = 0; sp < 2; ++sp) {
      size_t cnt = 0;
      double hi = -1e300, lo = 1e300;
      for(size_t i = 0; i < N / 2; ++i) {
        bool o = h[i + sp * N / 2];
        cnt += o;
        REQ(i < norb || !o, "orbital %zu outside the given ones occupied", i);
        if(i < norb) { if(o) hi = std::max(hi, e[i]); else lo = std::min(lo, e[i]); }
      }
      REQ(cnt == (sp ? nb : na), "spin %d has %zu electrons", sp, cnt);
      REQ(hi <= lo, "occupied orbital at %g above empty one at %g", hi, lo);
    }
  };
  switch(S.below(5)) {
    case 0: return go(IC<8>{});
    case 1: return go(IC<16>{});
    case 2: return go(IC<64>{});
    case 3: return go(IC<128>{});
    default: return go(IC<256>{});
  }
}
