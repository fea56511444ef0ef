// C19: orbital gradient, Hessian and rotation helpers
#include "actspace.hpp"
#include "padded.hpp"
#include <macis/util/orbital_gradient.hpp>
#include <macis/util/orbital_hessian.hpp>
#include <macis/util/orbital_rotation_utilities.hpp>
#include <macis/util/orbital_steps.hpp>
using pbt::Src;
using ref::Ints;
using macis::NumActive; using macis::NumInactive; using macis::NumOrbital; using macis::NumVirtual;
using vec = std::vector<double>;

static double sc(const Ints& I) { return ref::absmax(I); }
static double mx(const vec& a) { double m = 1; for(auto x : a) m = std::max(m, std::fabs(x)); return m; }

// derivative of the integrals along the antisymmetric generator K:
// orbitals C exp(-K), so every index p is contracted with K(p,o)
static Ints along(const Ints& I, const vec& K) {
  int n = I.n;
  Ints R(n);
  auto k = [&](int p, int o) { return K[p + n * o]; };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    double x = 0;
    for(int o = 0; o < n; ++o) x += k(p, o) * I.t(o, q) + k(q, o) * I.t(p, o);
    R.t(p, q) = x;
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double x = 0;
    for(int o = 0; o < n; ++o) x += k(p, o) * I.v(o, q, r, s) + k(q, o) * I.v(p, o, r, s) + k(r, o) * I.v(p, q, o, s) + k(s, o) * I.v(p, q, r, o);
    R.v(p, q, r, s) = x;
  }
  return R;
}
static vec unit(int n, int a, int i) { vec K(n * n, 0.); K[a + n * i] = 1; K[i + n * a] = -1; return K; }

// pairs of the packed vector, in its documented order: virtual-inactive, virtual-active, active-inactive
static std::vector<std::pair<int, int>> packed(const Space& s) {
  std::vector<std::pair<int, int>> r;
  int no = s.ni + s.na;
  for(int i = 0; i < s.ni; ++i) for(int a = no; a < s.n; ++a) r.push_back({a, i});
  for(int i = s.ni; i < no; ++i) for(int a = no; a < s.n; ++a) r.push_back({a, i});
  for(int i = 0; i < s.ni; ++i) for(int a = s.ni; a < no; ++a) r.push_back({a, i});
  return r;
}

// density matrices of an eigenstate of the active-space Hamiltonian
static ActRdm ci_rdm(Src& S, const Ints& I, const Space& s) {
  int ni = s.ni, na = s.na;
  Ints A(na);
  for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) {
    double t = I.t(ni + x, ni + y);
    for(int i = 0; i < ni; ++i) t += 2 * I.v(ni + x, ni + y, i, i) - I.v(ni + x, i, i, ni + y);
    A.t(x, y) = t;
    for(int z = 0; z < na; ++z) for(int w = 0; w < na; ++w) A.v(x, y, z, w) = I.v(ni + x, ni + y, ni + z, ni + w);
  }
  ActRdm r;
  r.physical = true;
  r.ds = ref::hilbert(na, (int)S.integer(0, na), (int)S.integer(0, na));
  int N = (int)r.ds.size();
  auto H = ref::hmat(A, r.ds);
  ref::eigh(H, N);
  int k = (int)S.below(N);
  r.c.assign(H.begin() + (size_t)k * N, H.begin() + (size_t)(k + 1) * N);
  auto R = ref::rdms(na, r.ds, r.c);
  r.D = R.D;
  r.G = R.G;
  for(auto& x : r.G) x *= 0.5;
  return r;
}

static void gradient_case(Src& S, bool large) {
  auto s = large ? gen_space(S, 3, 5, 4) : gen_space(S, 2, 3, 3);
  int n = s.n, ni = s.ni, na = s.na, nv = s.nv();
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto R = large ? random_rdm(S, na) : gen_rdm(S, na);
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3), p4 = S.below(3);
  S.note("n=%d inactive=%d active=%d padding=%zu,%zu,%zu,%zu", n, ni, na, p1, p2, p3, p4);
  S.nontrivial(ni && nv);
  S.label(R.physical ? "wave function" : "random density");
  if(!ni) S.label("no inactive");
  if(!nv) S.label("no virtual");
  vec D, G;
  full_rdm(s, R, D, G);
  double tol = 1e-12 * sc(I) * mx(R.D) * (1 + n * n * n * n);
  NumOrbital NO(n); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), A1 = pin(2, na, p3, R.D), A2 = pin(4, na, p4, R.G);
  auto F = pout(2, n, p4), T2 = pout(2, n, p3), V2 = pout(4, n, p1);
  vec one(n * n, 0.);
  for(int i = 0; i < n; ++i) one[i + n * i] = 1;
  auto U = pin(2, n, p2, one);
  double e0 = macis::orbital_rotated_energy(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, U.data(), U.ld, T2.data(), T2.ld, V2.data(), V2.ld, F.data(), F.ld);
  REQ(std::fabs(e0 - full_energy(I, D, G)) <= tol, "energy with unrotated orbitals %.15g, from the density matrices %.15g", e0, full_energy(I, D, G));
  REQ(F.touched() + T2.touched() + V2.touched() == 0, "padding written");

  auto deriv = [&](int a, int i) { return full_energy(along(I, unit(n, a, i)), D, G); };
  auto pk = packed(s);
  vec lin(pk.size() + 1, -777.25);
  macis::fock_to_linear_orb_grad(NI, NA, NV, F.data(), F.ld, lin.data());
  REQ(lin.back() == -777.25, "packed gradient writes past its end");
  auto og = pout(2, n, p3);
  macis::fock_to_gradient(NO, NI, NA, NV, F.data(), F.ld, og.data(), og.ld);
  std::set<std::pair<int, int>> rot;
  for(size_t k = 0; k < pk.size(); ++k) {
    auto [a, i] = pk[k];
    double d = deriv(a, i);
    REQ(std::fabs(lin[k] - d) <= tol, "gradient for rotation (%d,%d): %.14g, derivative %.14g", a, i, lin[k], d);
    REQ(std::fabs(og(a, i) - d) <= tol && og(i, a) == -og(a, i), "gradient matrix (%d,%d): %.14g / %.14g, derivative %.14g", a, i, og(a, i), og(i, a), d);
    rot.insert({a, i}); rot.insert({i, a});
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) if(!rot.count({p, q})) REQ(og(p, q) == -777.25, "gradient matrix: element (%d,%d) outside the rotation blocks written", p, q);
  REQ(og.touched() == 0, "padding written");

  // numerical gradient: every pair
  auto ng = pout(2, n, p2);
  macis::numerical_orbital_gradient(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, ng.data(), ng.ld);
  for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a) {
    double d = deriv(a, i);
    REQ(std::fabs(ng(a, i) - d) <= 1e-9 * sc(I) * mx(R.D) * (1 + n * n * n * n), "numerical gradient (%d,%d): %.12g, derivative %.12g", a, i, ng(a, i), d);
  }
  REQ(ng.touched() == 0, "padding written");
}

PBT(gradient, 2500, 50000, "inactive, active and virtual orbitals all present") { gradient_case(S, false); }
PBT(gradient_large, 10, 150, "inactive, active and virtual orbitals all present; up to 12 orbitals") { gradient_case(S, true); }

// energy and generalised Fock matrix for rotated orbitals
PBT(rotated, 2500, 50000, "three orbitals or more, rotation not the identity") {
  auto s = S.coin(1, 100) ? gen_space(S, 4, 4, 3) : gen_space(S, 2, 3, 2);
  int n = s.n, ni = s.ni, na = s.na;
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto R = gen_rdm(S, na);
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3);
  S.note("n=%d inactive=%d active=%d padding=%zu,%zu,%zu", n, ni, na, p1, p2, p3);
  S.nontrivial(n >= 3);
  ref::Bulk b{S.seed()};
  auto C = ref::orthogonal(b, n);
  auto J = ref::transform(I, C, n);
  vec D, G;
  full_rdm(s, R, D, G);
  double tol = 1e-12 * sc(I) * mx(R.D) * (1 + n * n * n * n), want = full_energy(J, D, G);
  NumOrbital NO(n); NumInactive NI(ni); NumActive NA(na);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), A1 = pin(2, na, p3, R.D), A2 = pin(4, na, p1, R.G), U = pin(2, n, p3, C);
  auto F = pout(2, n, p2), T2 = pout(2, n, p3), V2 = pout(4, n, p1), F2 = pout(2, n, p1), F3 = pout(2, n, p3);
  double e = macis::orbital_rotated_energy(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, U.data(), U.ld, T2.data(), T2.ld, V2.data(), V2.ld, F.data(), F.ld);
  double e2 = macis::orbital_rotated_energy(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, U.data(), U.ld);
  REQ(std::fabs(e - want) <= tol && std::fabs(e2 - want) <= tol, "rotated energy %.15g / %.15g, from rotated integrals %.15g", e, e2, want);
  for(int i = 0; i < n * n; ++i) REQ(std::fabs(T2.logical()[i] - J.T[i]) <= tol, "rotated one-electron integral %d", i);
  auto v2 = V2.logical();
  for(size_t i = 0; i < J.V.size(); ++i) REQ(std::fabs(v2[i] - J.V[i]) <= tol, "rotated two-electron integral %zu", i);
  auto T4 = pout(2, n, p1), V4 = pout(4, n, p2);
  macis::orbital_rotated_generalized_fock(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, U.data(), U.ld, T4.data(), T4.ld, V4.data(), V4.ld, F2.data(), F2.ld);
  macis::generalized_fock_matrix_comp_mat2(NO, NI, NA, J.T.data(), n, J.V.data(), n, A1.data(), A1.ld, A2.data(), A2.ld, F3.data(), F3.ld);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) REQ(std::fabs(F2(p, q) - F3(p, q)) <= tol && std::fabs(F(p, q) - F3(p, q)) <= tol, "Fock matrix of rotated orbitals (%d,%d)", p, q);
  REQ(F.touched() + T2.touched() + V2.touched() + F2.touched() + T4.touched() + V4.touched() == 0, "padding written");
}

// numerical Hessian and the analytic Hessian-vector product, against second
// derivatives formed from nested one-index transformations
PBT(hessian, 600, 12000, "inactive, active and virtual orbitals all present") {
  auto s = S.coin(1, 40) ? gen_space(S, 3, 4, 3) : gen_space(S, 1, 2, 2);
  int n = s.n, ni = s.ni, na = s.na, nv = s.nv();
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto R = gen_rdm(S, na);
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3);
  S.note("n=%d inactive=%d active=%d padding=%zu,%zu,%zu", n, ni, na, p1, p2, p3);
  S.nontrivial(ni && nv);
  vec D, G;
  full_rdm(s, R, D, G);
  NumOrbital NO(n); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), A1 = pin(2, na, p3, R.D), A2 = pin(4, na, p1, R.G);
  std::vector<std::pair<int, int>> all;
  for(int i = 0; i < n; ++i) for(int a = i + 1; a < n; ++a) all.push_back({a, i});
  std::map<std::pair<int, int>, Ints> L;
  for(auto& x : all) L.emplace(x, along(I, unit(n, x.first, x.second)));
  auto hess = [&](std::pair<int, int> x, std::pair<int, int> y) {
    return 0.5 * (full_energy(along(L.at(x), unit(n, y.first, y.second)), D, G) + full_energy(along(L.at(y), unit(n, x.first, x.second)), D, G));
  };
  std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, double> H;
  for(auto& x : all) for(auto& y : all) H[{x, y}] = y < x ? H[{y, x}] : hess(x, y);
  for(auto& x : all) for(auto& y : all) if(y < x) H[{x, y}] = H[{y, x}];
  double m = sc(I) * mx(R.D) * (1 + n * n * n * n);
  auto oh = pout(4, n, p2);
  macis::numerical_orbital_hessian(NO, NI, NA, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, oh.data(), oh.ld);
  for(auto& x : all) for(auto& y : all)
    REQ(std::fabs(oh(x.first, x.second, y.first, y.second) - H[{x, y}]) <= 1e-7 * m, "numerical Hessian (%d,%d),(%d,%d): %.10g want %.10g", x.first, x.second, y.first, y.second, oh(x.first, x.second, y.first, y.second), H[{x, y}]);
  REQ(oh.touched() == 0, "padding written");

  // The contraction is defined for density matrices of a full CI state of the
  // active space: rotations within the active space then leave the energy
  // stationary and the packed gradient is complete.
  R = ci_rdm(S, I, s);
  full_rdm(s, R, D, G);
  m = sc(I) * mx(R.D) * (1 + n * n * n * n);
  H.clear();
  A1 = pin(2, na, p3, R.D); A2 = pin(4, na, p1, R.G);
  auto pk = packed(s);
  for(auto& x : pk) for(auto& y : pk) H[{x, y}] = hess(x, y);
  ref::Bulk b{S.seed()};
  vec K(pk.size()), og(pk.size()), HK(pk.size() + 1, -777.25);
  for(size_t k = 0; k < K.size(); ++k) { K[k] = b.sym(k); og[k] = full_energy(L.at(pk[k]), D, G); }
  macis::orb_orb_hessian_contract(NO, NI, NA, NV, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, og.data(), K.data(), HK.data());
  REQ(HK.back() == -777.25, "Hessian product writes past its end");
  for(size_t k = 0; k < pk.size(); ++k) {
    double w = 0;
    for(size_t l = 0; l < pk.size(); ++l) w += H[{pk[k], pk[l]}] * K[l];
    REQ(std::fabs(HK[k] - w) <= 1e-12 * m * n, "Hessian times vector, element %zu: %.12g want %.12g", k, HK[k], w);
  }
}

// generalised Fock matrix given; the approximate diagonal Hessian and the step made from it
PBT(diag_hessian, 3000, 60000, "inactive, active and virtual orbitals all present") {
  auto s = S.coin(1, 100) ? gen_space(S, 5, 6, 6) : gen_space(S, 3, 3, 3);
  int n = s.n, ni = s.ni, na = s.na, nv = s.nv();
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto R = gen_rdm(S, na);
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3);
  S.note("n=%d inactive=%d active=%d padding=%zu,%zu,%zu", n, ni, na, p1, p2, p3);
  S.nontrivial(ni && nv);
  NumOrbital NO(n); NumInactive NI(ni); NumActive NA(na); NumVirtual NV(nv);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), A1 = pin(2, na, p3, R.D), A2 = pin(4, na, p1, R.G);
  // independent Fock matrices
  vec tot(n * n), F(n);
  vec D, G;
  full_rdm(s, R, D, G);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    double x = I.t(p, q);
    for(int t = 0; t < n; ++t) for(int u = 0; u < n; ++u) x += D[t + n * u] * (I.v(p, q, t, u) - 0.5 * I.v(p, u, t, q));
    tot[p + n * q] = x;
  }
  for(int m = 0; m < n; ++m) {
    double x = 0;
    for(int q = 0; q < n; ++q) x += D[m + n * q] * I.t(m, q);
    for(int q = 0; q < n; ++q) for(int t = 0; t < n; ++t) for(int u = 0; u < n; ++u) x += 2 * G[m + n * (q + n * (t + n * u))] * I.v(m, q, t, u);
    F[m] = x;
  }
  double tol = 1e-12 * sc(I) * mx(R.D) * (1 + n * n * n * n);
  auto pk = packed(s);
  vec want;
  int no = ni + na;
  for(auto [a, i] : pk) {
    auto f = [&](int p) { return tot[p + n * p]; };
    if(a >= no && i < ni) want.push_back(4 * (f(a) - f(i)));
    else if(a >= no) want.push_back(2 * D[i + n * i] * f(a) - 2 * F[i]);
    else want.push_back(2 * D[a + n * a] * f(i) + 4 * (f(a) - f(i)) - 2 * F[a]);
  }
  vec h(pk.size() + 1, -777.25);
  macis::approx_diag_hessian(NO, NI, NA, NV, T.data(), T.ld, V.data(), V.ld, A1.data(), A1.ld, A2.data(), A2.ld, h.data());
  REQ(h.back() == -777.25, "diagonal Hessian writes past its end");
  for(size_t k = 0; k < pk.size(); ++k) REQ(std::fabs(h[k] - want[k]) <= tol, "diagonal Hessian for rotation (%d,%d): %.14g want %.14g", pk[k].first, pk[k].second, h[k], want[k]);

  // the overloads that take Fock matrices, with padding, on arbitrary matrices
  ref::Bulk b{S.seed()};
  vec x1(n * n), x2(n * n), x3(n * n), d1(na * na);
  double sf = ref::gen_scale(S), sg = ref::gen_scale(S);
  for(int i = 0; i < n * n; ++i) { x1[i] = sf * b.sym(i); x2[i] = sf * b.sym(1000 + i); x3[i] = sf * b.sym(2000 + i); }
  for(int i = 0; i < na * na; ++i) d1[i] = b.sym(3000 + i);
  auto Fi = pin(2, n, p1, x1), Fa = pin(2, n, p2, x2), FF = pin(2, n, p3, x3), DD = pin(2, na, p2, d1);
  vec h2(pk.size(), 0.), vi(ni * nv + 1, -777.25), va(na * nv + 1, -777.25), ai(ni * na + 1, -777.25), og(pk.size()), st(pk.size() + 1, -777.25);
  macis::approx_diag_hessian(NI, NA, NV, Fi.data(), Fi.ld, Fa.data(), Fa.ld, DD.data(), DD.ld, FF.data(), FF.ld, h2.data());
  macis::approx_diag_hessian(NI, NA, NV, Fi.data(), Fi.ld, Fa.data(), Fa.ld, DD.data(), DD.ld, FF.data(), FF.ld, vi.data(), va.data(), ai.data());
  REQ(vi.back() == -777.25 && va.back() == -777.25 && ai.back() == -777.25, "a diagonal Hessian block writes past its end");
  vec blocks(vi.begin(), vi.end() - 1);
  blocks.insert(blocks.end(), va.begin(), va.end() - 1);
  blocks.insert(blocks.end(), ai.begin(), ai.end() - 1);
  for(size_t k = 0; k < pk.size(); ++k) {
    auto [a, i] = pk[k];
    auto f = [&](int p) { return x1[p + n * p] + x2[p + n * p]; };
    double w;
    if(a >= no && i < ni) w = 4 * (f(a) - f(i));
    else if(a >= no) w = 2 * d1[(i - ni) * (na + 1)] * f(a) - 2 * x3[i + n * i];
    else w = 2 * d1[(a - ni) * (na + 1)] * f(i) + 4 * (f(a) - f(i)) - 2 * x3[a + n * a];
    REQ(std::fabs(h2[k] - w) <= sf * 1e-13 * n * 50 && std::fabs(blocks[k] - w) <= sf * 1e-13 * n * 50, "diagonal Hessian (%d,%d) from Fock matrices: %.14g / %.14g want %.14g", a, i, h2[k], blocks[k], w);
    og[k] = sg * b.sym(5000 + k);
  }
  macis::precond_cg_orbital_step(NO, NI, NA, NV, Fi.data(), Fi.ld, Fa.data(), Fa.ld, FF.data(), FF.ld, DD.data(), DD.ld, og.data(), st.data());
  REQ(st.back() == -777.25, "step writes past its end");
  for(size_t k = 0; k < pk.size(); ++k) REQ(std::fabs(st[k] * h2[k] + og[k]) <= sg * 1e-13, "preconditioned step %zu: step*Hessian = %.14g, gradient %.14g", k, st[k] * h2[k], og[k]);
}

PBT(packing, 3000, 60000, "inactive, active and virtual orbitals all present") {
  auto s = S.coin(1, 40) ? gen_space(S, 20, 20, 30) : gen_space(S, 4, 5, 5);
  if(S.coin(1, 6)) { s.n -= s.na; s.na = 0; }
  int n = s.n;
  size_t p1 = S.below(3);
  NumInactive NI(s.ni); NumActive NA(s.na); NumVirtual NV(s.nv());
  S.note("n=%d inactive=%d active=%d padding=%zu", n, s.ni, s.na, p1);
  S.nontrivial(s.ni && s.nv() && s.na);
  auto pk = packed(s);
  vec k(pk.size());
  for(size_t i = 0; i < k.size(); ++i) k[i] = 1.5 + i;
  auto K = pout(2, n, p1);
  macis::linear_orb_rot_to_matrix(NI, NA, NV, k.data(), K.data(), K.ld);
  std::set<std::pair<int, int>> seen;
  for(size_t i = 0; i < pk.size(); ++i) {
    auto [a, b] = pk[i];
    REQ(K(a, b) == k[i] && K(b, a) == -k[i], "parameter %zu expands to (%g,%g), want %g at (%d,%d)", i, K(a, b), K(b, a), k[i], a, b);
    seen.insert({a, b}); seen.insert({b, a});
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) if(!seen.count({p, q})) REQ(K(p, q) == -777.25, "(%d,%d) outside the rotation blocks written", p, q);
  REQ(K.touched() == 0, "padding written");
  vec back(pk.size() + 1, -777.25);
  macis::matrix_to_linear_orb_rot(NI, NA, NV, K.data(), K.ld, back.data());
  REQ(back.back() == -777.25 && std::equal(k.begin(), k.end(), back.begin()), "packing the expanded matrix does not give the parameters back");
  // packing reads the lower blocks only; gradients are antisymmetrised Fock elements
  vec any(n * n);
  ref::Bulk b{S.seed()};
  for(int i = 0; i < n * n; ++i) any[i] = b.sym(i);
  auto F = pin(2, n, p1, any);
  vec g(pk.size() + 1, -777.25);
  macis::fock_to_linear_orb_grad(NI, NA, NV, F.data(), F.ld, g.data());
  macis::matrix_to_linear_orb_rot(NI, NA, NV, F.data(), F.ld, back.data());
  REQ(g.back() == -777.25 && back.back() == -777.25, "packing writes past its end");
  for(size_t i = 0; i < pk.size(); ++i) {
    auto [a, q] = pk[i];
    REQ(back[i] == any[a + n * q], "packed element %zu is not (%d,%d)", i, a, q);
    REQ(std::fabs(g[i] - 2 * (any[a + n * q] - any[q + n * a])) <= 1e-14, "gradient element %zu", i);
  }
}

PBT(rotation, 4000, 80000, "two orbitals or more and a rotation angle above 0.1") {
  int n = S.coin(1, 60) ? (int)S.integer(9, 30) : (int)S.edgy(1, 8);
  size_t p1 = S.below(4), p2 = S.below(4);
  double alpha = S.oneof({1., -1., 0.5, 2., 0., 1e-3});
  double big = S.oneof({1., 1e-8, 0.05, 3., 20.});
  ref::Bulk b{S.seed()};
  vec k(n * n, 0.);
  double m = 0;
  for(int p = 0; p < n; ++p) for(int q = 0; q < p; ++q) { double x = big * (b.u(5000 + p * 40 + q) % 4 ? b.sym(p * 40 + q) : 0.); k[p + n * q] = x; k[q + n * p] = -x; m = std::max(m, std::fabs(x * alpha)); }
  S.note("n=%d alpha=%g size=%g padding=%zu,%zu", n, alpha, big, p1, p2);
  S.nontrivial(n > 1 && m > 0.1);
  auto K = pin(2, n, p1, k), U = pout(2, n, p2);
  macis::compute_orbital_rotation(NumOrbital(n), alpha, K.data(), K.ld, U.data(), U.ld);
  REQ(U.touched() == 0, "padding written");
  // Taylor series with scaling and squaring
  vec A(n * n), E(n * n, 0.);
  int sq = 0;
  double nr = m * n;
  while(nr > 0.25) { nr /= 2; ++sq; }
  for(int i = 0; i < n * n; ++i) A[i] = -alpha * k[i] * std::ldexp(1., -sq);
  auto mul = [&](const vec& x, const vec& y) { vec z(n * n, 0.); for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) for(int l = 0; l < n; ++l) z[i + n * j] += x[i + n * l] * y[l + n * j]; return z; };
  for(int i = 0; i < n; ++i) E[i + n * i] = 1;
  vec term = E;
  for(int o = 1; o < 25; ++o) { term = mul(term, A); for(auto& x : term) x /= o; for(int i = 0; i < n * n; ++i) E[i] += term[i]; }
  for(int i = 0; i < sq; ++i) E = mul(E, E);
  double tol = 1e-12 * (1 + m * n);
  for(int i = 0; i < n * n; ++i) REQ(std::fabs(U.logical()[i] - E[i]) <= tol, "exponential element %d: %.14g want %.14g", i, U.logical()[i], E[i]);
  auto u = U.logical();
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) {
    double x = 0;
    for(int l = 0; l < n; ++l) x += u[l + n * i] * u[l + n * j];
    REQ(std::fabs(x - (i == j)) <= tol, "columns %d,%d of the rotation have overlap %.3g", i, j, x);
  }
}
