// C08 rotation of the Hamiltonian to natural orbitals
#include "ham.hpp"
using pbt::Src;
using ref::Det;

// a one-particle density matrix with occupations in [0,2]; may be degenerate or singular
static std::vector<double> gen_dm(Src& S, int n, std::vector<double>& occ) {
  int mode = S.below(5);
  pbt::Bulk b{S.seed()};
  occ.assign(n, 0);
  for(int i = 0; i < n; ++i) occ[i] = mode == 0 ? (i < n / 2 ? 2. : 0.) : mode == 1 ? 2 * b.unit(i) : mode == 2 ? (double)(b.u(i) % 3) : 2 - 1.9 * i / n;
  auto Q = mode >= 3 && S.coin() ? std::vector<double>() : ref::orthogonal(pbt::Bulk{S.seed()}, n);
  if(mode == 4 && Q.size()) {  // almost natural orbitals already
    S.label("almost diagonal density");
    Q.assign(n * n, 0.);
    for(int i = 0; i < n; ++i) Q[i + n * i] = 1;
    for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) {
      double a = b.sym(1000 + 50 * i + j) * std::pow(10., -(double)(b.u(5000 + 50 * i + j) % 10) - 3);
      for(int p = 0; p < n; ++p) { double x = Q[p + n * i], y = Q[p + n * j]; Q[p + n * i] = std::cos(a) * x + std::sin(a) * y; Q[p + n * j] = std::cos(a) * y - std::sin(a) * x; }
    }
  }
  std::vector<double> D(n * n, 0.);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    if(Q.empty()) D[p + n * q] = p == q ? occ[(p + 1) % n] : 0;
    else for(int k = 0; k < n; ++k) D[p + n * q] += Q[p + n * k] * occ[k] * Q[q + n * k];
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < p; ++q) D[q + n * p] = D[p + n * q];
  return D;
}

// the generator's derived integrals must agree with its new T and V
template <size_t N>
void consistent(Src& S, Gen<N>& G, int n, double sc) {
  for(int t = 0; t < 3; ++t) {
    auto k = gen_det(S, n, S.integer(0, n), S.integer(0, n));
    auto H = ref::apply_h(G.I, k);
    for(int u = 0; u < 6; ++u) {
      auto b = excite(S, k, n, S.below(3), S.below(3));
      double want = H.count(b) ? H[b] : 0, got = G.g.matrix_element(ref::to_bits<N>(b), ref::to_bits<N>(k));
      REQ(std::fabs(want - got) <= 1e-10 * sc, "element of the rotated generator %.14g, from its integrals %.14g", got, want);
    }
    auto oa = occ_list(k.a), ob = occ_list(k.b);
    double d0 = G.g.matrix_element_diag(oa, ob);
    for(int i = 0; i < n; ++i) for(int a = 0; a < n; ++a) if(((k.a >> i) & 1) && !((k.a >> a) & 1)) {
      Det d = k; d.a ^= (1ull << i) | (1ull << a);
      double f = G.g.fast_diag_single(oa, ob, i, a, d0), want = ref::elem(G.I, d, d);
      REQ(std::fabs(f - want) <= 1e-10 * sc, "fast diagonal of the rotated generator %.14g want %.14g", f, want);
    }
  }
}

template <size_t N>
void spectra(Src& S, bool more = false) {
  int n = more ? (int)S.integer(5, 12) : S.edgy(1, 4);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  std::vector<double> occ;
  auto D = gen_dm(S, n, occ), D0 = D;
  Gen<N> G(I);
  double sc = ref::absmax(I) * (1 + n * n * n * n);
  S.note("N=%zu n=%d", N, n);
  bool diag = true; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(i != j && std::fabs(D[i + n * j]) > 1e-6) diag = false;
  S.nontrivial(n > 1 && !diag);
  G.g.rotate_hamiltonian_ordm(D.data());
  REQ(D == D0, "density matrix changed");
  for(auto x : G.I.T) REQ(std::isfinite(x));
  for(int na = 0; na <= n; ++na) for(int nb = 0; nb <= std::min(na, n); ++nb) {
    if(more && na + nb > 2) continue;
    auto ds = ref::hilbert(n, na, nb);
    auto A = ref::hmat(I, ds), B = ref::hmat(G.I, ds);
    auto wa = ref::eigh(A, ds.size()), wb = ref::eigh(B, ds.size());
    for(size_t i = 0; i < ds.size(); ++i) REQ(std::fabs(wa[i] - wb[i]) <= 1e-9 * sc, "sector (%d,%d) level %zu: %.12g before, %.12g after", na, nb, i, wa[i], wb[i]);
  }
  // integrals keep their permutational symmetry
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    REQ(std::fabs(G.I.t(p, q) - G.I.t(q, p)) <= 1e-11 * sc);
    for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s)
      REQ(std::fabs(G.I.v(p, q, r, s) - G.I.v(q, p, r, s)) <= 1e-11 * sc && std::fabs(G.I.v(p, q, r, s) - G.I.v(r, s, p, q)) <= 1e-11 * sc, "symmetry lost at %d %d %d %d", p, q, r, s);
  }
  consistent<N>(S, G, n, sc);
}
PBT(spectrum_unchanged, 600, 8000, "two or more orbitals and a non-diagonal density matrix") {
  if(S.below(2)) spectra<128>(S); else spectra<64>(S);
}

PBT(spectrum_more_orbitals, 60, 2000, "a non-diagonal density matrix; 5 to 12 orbitals, up to two electrons") {
  if(S.below(2)) spectra<128>(S, true); else spectra<64>(S, true);
}

// With T set to the density matrix itself, T must come out diagonal in monotone order; with
// V a product D x D, V must come out as the product of the same diagonals.
template <size_t N>
void diagonal(Src& S) {
  int n = S.coin(1, 12) ? (int)S.integer(8, 20) : S.edgy(1, 7);
  if(n > 7) S.label("8 to 20 orbitals");
  std::vector<double> occ;
  auto D = gen_dm(S, n, occ);
  ref::Ints I(n);
  auto E = D; pbt::Bulk b{S.seed()};
  for(int i = 0; i < n; ++i) for(int j = 0; j <= i; ++j) E[i + n * j] = E[j + n * i] = b.sym(i * n + j);
  I.T = D;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) I.v(p, q, r, s) = D[p + n * q] * D[r + n * s];
  Gen<N> G(I);
  S.note("N=%zu n=%d occ[0]=%g", N, n, occ[0]);
  bool diag = true; for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(i != j && std::fabs(D[i + n * j]) > 1e-6) diag = false;
  S.nontrivial(n > 1 && !diag);
  G.g.rotate_hamiltonian_ordm(D.data());
  std::sort(occ.begin(), occ.end());
  std::vector<double> d(n);
  for(int i = 0; i < n; ++i) { d[i] = G.I.t(i, i); for(int j = 0; j < n; ++j) if(i != j) REQ(std::fabs(G.I.t(i, j)) <= 1e-10, "density (%d,%d) = %g off the diagonal", i, j, G.I.t(i, j)); }
  bool up = true, dn = true;
  for(int i = 1; i < n; ++i) { up &= d[i] >= d[i - 1] - 1e-10; dn &= d[i] <= d[i - 1] + 1e-10; }
  REQ(up || dn, "occupations not in order");
  auto sd = d; std::sort(sd.begin(), sd.end());
  for(int i = 0; i < n; ++i) REQ(std::fabs(sd[i] - occ[i]) <= 1e-10, "occupation %g want %g", sd[i], occ[i]);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double want = (p == q ? d[p] : 0) * (r == s ? d[r] : 0);
    REQ(std::fabs(G.I.v(p, q, r, s) - want) <= 1e-9, "two-electron part rotated differently at %d %d %d %d: %g want %g", p, q, r, s, G.I.v(p, q, r, s), want);
  }
}
PBT(density_diagonal, 3000, 40000, "two or more orbitals and a non-diagonal density matrix") {
  if(S.below(2)) diagonal<128>(S); else diagonal<64>(S);
}

// end to end: density of a state before, rotated state's density after
PBT(state_density, 400, 5000, "at least two orbitals") {
  int n = S.integer(1, 4), na = S.integer(0, n), nb = S.integer(0, n);
  if(na + nb == 0) na = 1;
  ref::Ints I(n);
  pbt::Bulk b{S.seed()};
  I.fill([&](uint64_t c) { return b.sym(c); });
  auto ds = ref::hilbert(n, na, nb);
  auto A = ref::hmat(I, ds);
  auto w = ref::eigh(A, ds.size());
  if(ds.size() > 1 && w[1] - w[0] < 1e-3) throw pbt::Discard{};
  S.note("n=%d na=%d nb=%d", n, na, nb);
  S.nontrivial(n > 1);
  auto R = ref::rdms(n, ds, std::vector<double>(A.begin(), A.begin() + ds.size()));
  Gen<64> G(I);
  // use the library's own density matrix
  std::vector<double> D(n * n, 0.), C(A.begin(), A.begin() + ds.size());
  auto B = bitsets<64>(ds);
  std::vector<double> T((size_t)n * n * n * n, 0.);
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(T.data(), n, n, n, n));
  G.g.rotate_hamiltonian_ordm(D.data());
  auto A2 = ref::hmat(G.I, ds);
  auto w2 = ref::eigh(A2, ds.size());
  REQ(std::fabs(w2[0] - w[0]) < 1e-8, "ground state %.12g became %.12g", w[0], w2[0]);
  auto R2 = ref::rdms(n, ds, std::vector<double>(A2.begin(), A2.begin() + ds.size()));
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(i != j) REQ(std::fabs(R2.D[i + n * j]) < 1e-6, "density of the same state not diagonal: (%d,%d) = %g", i, j, R2.D[i + n * j]);
}
