// C04 Hamiltonian matrix elements against second-quantised operators
#include "ham.hpp"
using pbt::Src;

template <size_t N>
void pair_case(Src& S, int nmax) {
  int n = S.edgy(1, nmax);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  int na = S.edgy(0, n), nb = S.edgy(0, n);
  Gen<N> G(I);
  const auto& g = G.g;
  double tol = 1e-12 * ref::absmax(I) * (1 + (na + nb) * (na + nb));
  // all elements connecting to one ket, plus far-away determinants
  auto k = gen_det(S, n, na, nb);
  auto Hk = ref::apply_h(I, k);
  auto kb = ref::to_bits<N>(k);
  for(int t = 0; t < 12; ++t) {
    int da = S.below(4), db = S.below(4);
    auto b = excite(S, k, n, da, db);
    int ex = ref::popc(b.a ^ k.a), ey = ref::popc(b.b ^ k.b);
    auto it = Hk.find(b);
    double want = it == Hk.end() ? 0 : it->second;
    auto bb = ref::to_bits<N>(b);
    double x = g.matrix_element(bb, kb), y = g.matrix_element(kb, bb);
    S.label(pbt::fmt("ex%d%d", ex / 2, ey / 2));
    if(t == 0) S.note("N=%zu n=%d bra=%s ket=%s H=%g", N, n, ref::str(b, n).c_str(), ref::str(k, n).c_str(), want);
    S.nontrivial(want != 0 && b != k);
    REQ(std::fabs(x - want) <= tol, "<%s|H|%s> = %.15g want %.15g", ref::str(b, n).c_str(), ref::str(k, n).c_str(), x, want);
    REQ(std::fabs(y - want) <= tol, "<%s|H|%s> = %.15g want %.15g (not symmetric)", ref::str(k, n).c_str(), ref::str(b, n).c_str(), y, want);
    if(ex + ey > 4) REQ(x == 0 && y == 0, "more than a double excitation but %g", x);
    // the string-level entry point used by the search
    auto sa = macis::bitset_lo_word(bb), sb = macis::bitset_hi_word(bb), ka = macis::bitset_lo_word(kb), kbt = macis::bitset_hi_word(kb);
    double z = g.matrix_element(sa, ka, sa ^ ka, sb, kbt, sb ^ kbt, occ_list(b.a), occ_list(b.b));
    REQ(std::fabs(z - want) <= tol, "string-level element %.15g want %.15g", z, want);
  }
}
PBT(pairs, 8000, 120000, "a non-zero off-diagonal element was compared (12 bra-ket pairs per case)") {
  if(S.below(2)) pair_case<128>(S, 6); else pair_case<64>(S, 6);
}

// determinants far up in the word: only a few orbitals matter, but their indices are high
PBT(high_orbitals, 150, 3000, "a non-zero off-diagonal element was compared; 7 to 64 orbitals") {
  auto go = [&](auto ic) {
    constexpr size_t N = ic;
    int n = S.coin(1, 4) ? wide_norb<N>(S, true) : (int)S.integer(7, N == 128 ? 22 : 20);
    ref::Ints I(n);
    pbt::Bulk b{S.seed()};
    I.fill([&](uint64_t c) { return b.sym(c); });
    int na = S.edgy(1, n), nb = S.edgy(0, n);
    auto k = wide_det(S, n, na, nb);
    Gen<N> G(I);
    S.label(n > 32 ? "more than 32 orbitals" : n > 22 ? "23 to 32 orbitals" : "up to 22 orbitals");
    for(int t = 0; t < (n > 22 ? 16 : 4); ++t) {
      auto x = excite(S, k, n, S.below(3), S.below(3));
      double want = ref::elem2(I, x, k);
      double got = G.g.matrix_element(ref::to_bits<N>(x), ref::to_bits<N>(k)), back = G.g.matrix_element(ref::to_bits<N>(k), ref::to_bits<N>(x));
      if(t == 0) S.note("N=%zu n=%d bra=%s ket=%s H=%g", N, n, ref::str(x, n).c_str(), ref::str(k, n).c_str(), want);
      S.nontrivial(want != 0 && x != k);
      REQ(std::fabs(got - want) <= 1e-11 * (1 + n * n), "<%s|H|%s> = %.15g want %.15g", ref::str(x, n).c_str(), ref::str(k, n).c_str(), got, want);
      REQ(std::fabs(back - want) <= 1e-11 * (1 + n * n), "<%s|H|%s> = %.15g want %.15g (other way round)", ref::str(k, n).c_str(), ref::str(x, n).c_str(), back, want);
    }
  };
  if(S.below(2)) go(std::integral_constant<size_t, 128>{}); else go(std::integral_constant<size_t, 64>{});
}

// the whole matrix over a space: symmetric, and the spectrum of the physical operator is
// unchanged by an orthogonal change of orbitals (metamorphic)
PBT(spectrum, 400, 4000, "at least two determinants") {
  int n = S.edgy(1, 4);
  auto I = ref::gen_ints(S, n);
  int na = S.edgy(0, n), nb = S.edgy(0, n);
  auto ds = ref::hilbert(n, na, nb);
  auto Q = ref::orthogonal(pbt::Bulk{S.seed()}, n);
  auto J = ref::transform(I, Q, n);
  S.note("n=%d na=%d nb=%d dim=%zu", n, na, nb, ds.size());
  S.nontrivial(ds.size() > 1);
  size_t m = ds.size();
  auto mat = [&](const ref::Ints& X) {
    Gen<64> G(X);
    auto b = bitsets<64>(ds);
    std::vector<double> H(m * m);
    for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < m; ++i) H[i + j * m] = G.g.matrix_element(b[i], b[j]);
    for(size_t j = 0; j < m; ++j) for(size_t i = 0; i < j; ++i)
      REQ(std::fabs(H[i + j * m] - H[j + i * m]) < 1e-11 * (1 + vscale(X) * 30), "not symmetric at %zu %zu", i, j);
    return H;
  };
  auto A = mat(I), B = mat(J);
  auto wa = ref::eigh(A, m), wb = ref::eigh(B, m);
  for(size_t i = 0; i < m; ++i) REQ(pbt::close(wa[i], wb[i], 1e-9 * vscale(I)), "eigenvalue %zu: %.12g in the old orbitals, %.12g in the rotated ones", i, wa[i], wb[i]);
}

// replacing the integrals and regenerating the derived ones
PBT(replace, 2000, 20000, "at least one element changes with the integrals") {
  int n = S.edgy(1, 5);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S)), J = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  int na = S.edgy(0, n), nb = S.edgy(0, n);
  Gen<64> G(I);
  auto k = gen_det(S, n, na, nb);
  std::vector<ref::Det> bras{k};
  for(int t = 0; t < 5; ++t) bras.push_back(excite(S, k, n, S.below(3), S.below(3)));
  auto chk = [&](const ref::Ints& X, const char* when) {
    auto H = ref::apply_h(X, k);
    for(auto& b : bras) {
      double want = H.count(b) ? H[b] : 0, got = G.g.matrix_element(ref::to_bits<64>(b), ref::to_bits<64>(k));
      REQ(std::fabs(got - want) <= 1e-11 * ref::absmax(X) * (1 + n * n), "%s: %.14g want %.14g", when, got, want);
    }
  };
  S.note("n=%d ket=%s", n, ref::str(k, n).c_str());
  auto load = [&](const ref::Ints& X) {
    std::copy(X.T.begin(), X.T.end(), G.I.T.begin());
    std::copy(X.V.begin(), X.V.end(), G.I.V.begin());
    G.g.generate_integral_intermediates(macis::rank4_span<double>(G.I.V.data(), n, n, n, n));
  };
  chk(I, "original");
  load(J);
  chk(J, "replaced");
  S.nontrivial(I.T != J.T || I.V != J.V);
  load(I);
  chk(I, "restored");
}
