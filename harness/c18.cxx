// C18: inactive, active and generalised Fock matrices
#include "actspace.hpp"
#include "padded.hpp"
#include <macis/util/fock_matrices.hpp>
using pbt::Src;
using ref::Ints;
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital;

static double sc(const Ints& I) { return ref::absmax(I); }

// matrix with independent row and column counts, padded
struct Mat {
  size_t m, n, ld;
  std::vector<double> a;
  double fill;
  Mat(size_t m_, size_t n_, size_t pad, double f) : m(m_), n(n_), ld(std::max<size_t>(m_, 1) + pad), a(ld * n_ + 1, f), fill(f) {}
  double* data() { return a.data(); }
  double& operator()(size_t i, size_t j) { return a[i + ld * j]; }
  size_t touched() const { size_t k = 0; for(size_t o = 0; o < a.size(); ++o) if((o % ld >= m || o / ld >= n) && memcmp(&a[o], &fill, 8)) ++k; return k; }
};

static void blocks_case(Src& S, bool large) {
  auto s = large ? gen_space(S, 5, 8, 6) : gen_space(S);
  int n = s.n, ni = s.ni, na = s.na;
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto R = large ? random_rdm(S, na) : gen_rdm(S, na);
  double sd = ref::gen_scale(S);
  for(auto& x : R.D) x *= sd;
  for(auto& x : R.G) x *= sd;
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3);
  S.note("n=%d inactive=%d active=%d padding=%zu,%zu,%zu", n, ni, na, p1, p2, p3);
  S.nontrivial(ni > 0 && na > 1);
  S.label(R.physical ? "wave function" : "random density");
  if(!ni) S.label("no inactive");
  if(!s.nv()) S.label("no virtual");
  const double ti = 1e-12 * sc(I) * (1 + n * n * n), dm = std::max(ref::absmax(R.D), ref::absmax(R.G)), ta = ti * dm, tol = ti;  // what does and does not contain the density
  NumOrbital NO(n); NumInactive NI(ni); NumActive NA(na);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), D = pin(2, na, p3, R.D), G = pin(4, na, p1, R.G);
  auto keepV = V.a;

  std::vector<double> fi(n * n), fa(n * n), q(na * n), F(n * n, 0.);
  for(int p = 0; p < n; ++p) for(int r = 0; r < n; ++r) {
    double x = I.t(p, r), y = 0;
    for(int i = 0; i < ni; ++i) x += 2 * I.v(p, r, i, i) - I.v(p, i, i, r);
    for(int v = 0; v < na; ++v) for(int w = 0; w < na; ++w) y += R.D[v + na * w] * (I.v(p, r, ni + v, ni + w) - 0.5 * I.v(p, ni + v, ni + w, r));
    fi[p + n * r] = x; fa[p + n * r] = y;
  }
  for(int v = 0; v < na; ++v) for(int p = 0; p < n; ++p) {
    double x = 0;
    for(int w = 0; w < na; ++w) for(int a = 0; a < na; ++a) for(int b = 0; b < na; ++b) x += R.G[v + na * (w + na * (a + na * b))] * I.v(p, ni + w, ni + a, ni + b);
    q[v + na * p] = 2 * x;
  }
  for(int p = 0; p < n; ++p) {
    for(int i = 0; i < ni; ++i) F[i + n * p] = 2 * (fi[p + n * i] + fa[p + n * i]);
    for(int v = 0; v < na; ++v) { double x = q[v + na * p]; for(int w = 0; w < na; ++w) x += R.D[v + na * w] * fi[p + n * (ni + w)]; F[ni + v + n * p] = x; }
  }
  auto cmp = [&](const std::vector<double>& g, const std::vector<double>& w, const char* what, double tol) {
    for(size_t i = 0; i < w.size(); ++i) REQ(std::fabs(g[i] - w[i]) <= tol, "%s element %zu: %.15g want %.15g", what, i, g[i], w[i]);
  };
  auto Fi = pout(2, n, p3), Fa = pout(2, n, p1);
  macis::inactive_fock_matrix(NO, NI, T.data(), T.ld, V.data(), V.ld, Fi.data(), Fi.ld);
  macis::active_fock_matrix(NO, NI, NA, V.data(), V.ld, D.data(), D.ld, Fa.data(), Fa.ld);
  Mat Q(na, n, p2, -777.25);
  macis::aux_q_matrix(NA, NO, NI, V.data(), V.ld, G.data(), G.ld, Q.data(), Q.ld);
  cmp(Fi.logical(), fi, "inactive Fock", ti);
  cmp(Fa.logical(), fa, "active Fock", ta);
  for(int v = 0; v < na; ++v) for(int p = 0; p < n; ++p) REQ(std::fabs(Q(v, p) - q[v + na * p]) <= ta, "Q(%d,%d): %.15g want %.15g", v, p, Q(v, p), q[v + na * p]);
  REQ(Fi.touched() + Fa.touched() + Q.touched() == 0, "padding written");

  double ei = 0;
  for(int i = 0; i < ni; ++i) ei += I.t(i, i) + fi[i + n * i];
  double e = macis::inactive_energy(NI, T.data(), T.ld, Fi.data(), Fi.ld);
  REQ(std::fabs(e - ei) <= tol, "inactive energy %.15g want %.15g", e, ei);

  Mat G1(n, n, p1, -777.25), G2(n, n, p2, -777.25), G3(n, n, p3, -777.25);
  macis::generalized_fock_matrix(NO, NI, NA, Fi.data(), Fi.ld, Fa.data(), Fa.ld, D.data(), D.ld, Q.data(), Q.ld, G1.data(), G1.ld);
  macis::generalized_fock_matrix_comp_mat1(NO, NI, NA, Fi.data(), Fi.ld, V.data(), V.ld, D.data(), D.ld, G.data(), G.ld, G2.data(), G2.ld);
  macis::generalized_fock_matrix_comp_mat2(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld, G.data(), G.ld, G3.data(), G3.ld);
  for(auto* M : {&G1, &G2, &G3}) {
    for(int p = 0; p < n; ++p) for(int r = 0; r < n; ++r)
      REQ(std::fabs((*M)(r, p) - F[r + n * p]) <= (r < ni ? ti + ta : ta) * 4, "generalised Fock (variant %d) (%d,%d): %.15g want %.15g", (int)(M == &G1 ? 0 : M == &G2 ? 1 : 2), r, p, (*M)(r, p), F[r + n * p]);
    REQ(M->touched() == 0, "padding written");
  }
  std::vector<double> Df, Gf;
  full_rdm(s, R, Df, Gf);
  double ef = macis::energy_from_generalized_fock(NI, NA, T.data(), T.ld, D.data(), D.ld, G3.data(), G3.ld), want = full_energy(I, Df, Gf);
  REQ(std::fabs(ef - want) <= (ni ? ti + ta : ta) * (n + 1) * n, "energy from the generalised Fock matrix %.14g, from the density matrices %.14g", ef, want);
  REQ(!memcmp(V.a.data(), keepV.data(), keepV.size() * 8), "the integrals were changed");

  auto Ts = pout(2, na, p2), Vs = pout(4, na, p3), Fi2 = pout(2, n, p2);
  macis::active_hamiltonian(NO, NA, NI, T.data(), T.ld, V.data(), V.ld, Fi2.data(), Fi2.ld, Ts.data(), Ts.ld, Vs.data(), Vs.ld);
  cmp(Fi2.logical(), fi, "inactive Fock from active_hamiltonian", ti);
  for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) {
    REQ(std::fabs(Ts(x, y) - fi[ni + x + n * (ni + y)]) <= tol, "active one-body (%d,%d)", x, y);
    for(int z = 0; z < na; ++z) for(int w = 0; w < na; ++w) REQ(Vs(x, y, z, w) == I.v(ni + x, ni + y, ni + z, ni + w), "active two-body (%d,%d,%d,%d)", x, y, z, w);
  }
  REQ(Ts.touched() + Vs.touched() + Fi2.touched() == 0, "padding written");
  // sub-block extraction of tensors without symmetry
  std::vector<double> any(n * n), any4((size_t)n * n * n * n);
  for(size_t i = 0; i < any.size(); ++i) any[i] = (double)i;
  for(size_t i = 0; i < any4.size(); ++i) any4[i] = (double)i;
  auto A = pin(2, n, p3, any), A4 = pin(4, n, p1, any4), B = pout(2, na, p1), B4 = pout(4, na, p2);
  macis::active_submatrix_1body(NA, NI, A.data(), A.ld, B.data(), B.ld);
  macis::active_subtensor_2body(NA, NI, A4.data(), A4.ld, B4.data(), B4.ld);
  for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) {
    REQ(B(x, y) == A(ni + x, ni + y), "sub-block (%d,%d)", x, y);
    for(int z = 0; z < na; ++z) for(int w = 0; w < na; ++w) REQ(B4(x, y, z, w) == A4(ni + x, ni + y, ni + z, ni + w), "sub-block (%d,%d,%d,%d)", x, y, z, w);
  }
  REQ(B.touched() + B4.touched() == 0, "padding written");
}

PBT(building_blocks, 4000, 80000, "at least one inactive and two active orbitals") { blocks_case(S, false); }
PBT(building_blocks_large, 25, 400, "at least one inactive and two active orbitals; up to 19 orbitals") { blocks_case(S, true); }

// every matrix element between determinants with the inactive orbitals filled
PBT(effective_hamiltonian, 3000, 60000, "at least one inactive orbital and different determinants") {
  auto s = gen_space(S, 3, 4, 2);
  int n = s.n, ni = s.ni, na = s.na;
  auto I = ref::gen_ints(S, n);
  std::vector<double> Fi(n * n);
  Ints A(na);
  macis::active_hamiltonian(NumOrbital(n), NumActive(na), NumInactive(ni), I.T.data(), n, I.V.data(), n, Fi.data(), n, A.T.data(), na, A.V.data(), na);
  double ei = macis::inactive_energy(NumInactive(ni), I.T.data(), n, Fi.data(), n);
  int ea = (int)S.integer(0, na), eb = (int)S.integer(0, na);
  S.note("n=%d inactive=%d active=%d electrons=%d,%d", n, ni, na, ea, eb);
  uint64_t core = (1ull << ni) - 1;
  auto lift = [&](ref::Det d) { d.a = (d.a << ni) | core; d.b = (d.b << ni) | core; return d; };
  double tol = 1e-12 * sc(I) * (1 + n * n * n * n);
  for(int t = 0; t < 4; ++t) {
    ref::Det k{};
    k.a = ref::gen_string(S, na, ea); k.b = ref::gen_string(S, na, eb);
    auto H = ref::apply_h(A, k), Hf = ref::apply_h(I, lift(k));
    auto full = [&](const ref::Det& b) { auto it = Hf.find(lift(b)); return it == Hf.end() ? 0. : it->second; };
    H[k] += ei;
    if(H.size() > 1 && ni) S.nontrivial();
    for(auto& [b, h] : H) REQ(std::fabs(h - full(b)) <= tol, "element %.14g in the active space, %.14g in the full space", h, full(b));
    // and nothing the active space misses
    for(auto& [b, h] : Hf) {
      if((b.a & core) != core || (b.b & core) != core || (b.a >> (ni + na)) || (b.b >> (ni + na)) || std::fabs(h) < tol) continue;
      ref::Det c = b;
      c.a >>= ni; c.b >>= ni;
      REQ(H.count(c), "element %.14g of the full space is absent from the active space", h);
    }
  }
}
