// C21: orbital energies and second-order perturbation theory
#include <iostream>
#include <sstream>
#include "ref.hpp"
#include "padded.hpp"
#include <macis/util/moller_plesset.hpp>
#include <macis/util/orbital_energies.hpp>
using pbt::Src;
using ref::Det;
using ref::Ints;
using namespace macis;
using vec = std::vector<double>;

// occupied and virtual orbitals separated by a gap
static Ints gen_gapped(Src& S, int n, int no) {
  Ints I(n);
  pbt::Bulk b{S.seed()};
  double c = S.oneof({0.05, 0.3, 1.0});
  int sparse = S.below(3);
  I.fill([&](uint64_t k) { return sparse && b.u(k + 99) % 3 == 0 ? 0. : c * b.sym(k); });
  for(int p = 0; p < n; ++p) I.t(p, p) += (p < no ? -3. - 0.3 * p : 3. + 0.5 * p) * (1 + 2 * c);
  return I;
}
static double big(const Ints& I) { return ref::absmax(I); }
static vec energies(const Ints& I, int no) {
  // removal and addition of one electron from the closed-shell determinant
  Det hf{};
  hf.a = hf.b = (1ull << no) - 1;
  vec e;
  double e0 = ref::diag(I, hf);
  for(int p = 0; p < I.n; ++p) {
    Det d = hf;
    d.a ^= 1ull << p;
    e.push_back(p < no ? e0 - ref::diag(I, d) : ref::diag(I, d) - e0);
  }
  return e;
}

static void amplitudes_case(Src& S, int hi) {
  int n = (int)S.edgy(1, hi), no = (int)S.edgy(0, n), nv = n - no;
  auto I = ref::scaled(S.coin() ? gen_gapped(S, n, no) : ref::gen_ints(S, n), ref::gen_scale(S));
  double se = ref::gen_scale(S);
  size_t p1 = S.below(3), p2 = S.below(3);
  S.note("n=%d occupied=%d padding=%zu,%zu", n, no, p1, p2);
  S.nontrivial(no > 1 && nv > 1);
  double tol = 1e-12 * big(I) * (1 + n * n);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V);
  vec eps(n + 1, -777.25), want = energies(I, no);
  canonical_orbital_energies(NumOrbital(n), NumInactive(no), T.data(), T.ld, V.data(), V.ld, eps.data());
  REQ(eps[n] == -777.25, "energies written past the end");
  for(int p = 0; p < n; ++p) REQ(std::fabs(eps[p] - want[p]) <= tol, "orbital energy %d: %.14g, from %s one electron %.14g", p, eps[p], p < no ? "removing" : "adding", want[p]);
  // amplitudes for any energies
  pbt::Bulk b{S.seed()};
  vec e(n), t((size_t)no * no * nv * nv + 1, -777.25);
  bool crossed = S.coin(1, 3);  // occupied levels above virtual ones too
  double es = 0;
  for(int p = 0; p < n; ++p) { e[p] = se * (crossed ? 2 * b.sym(p) : (p < no ? -1 : 1) * (0.1 + 2 * b.unit(p))); es = std::max(es, std::fabs(e[p])); }
  mp2_t2(NumCanonicalOccupied(no), NumCanonicalVirtual(nv), V.data(), V.ld, e.data(), t.data());
  REQ(t.back() == -777.25, "amplitudes written past the end");
  size_t k = 0;
  for(int c = 0; c < nv; ++c) for(int a = 0; a < nv; ++a) for(int j = 0; j < no; ++j) for(int i = 0; i < no; ++i) {
    double den = e[i] + e[j] - e[no + a] - e[no + c], w = I.v(i, no + a, j, no + c) / den;
    if(std::fabs(den) < 1e-6 * es) { ++k; continue; }  // cancellation: any rounding shows
    REQ(std::fabs(t[k] - w) <= 1e-13 * (1 + es / std::fabs(den)) * std::fabs(w), "amplitude i=%d j=%d a=%d b=%d: %.14g want %.14g", i, j, a, c, t[k], w);
    ++k;
  }
}

PBT(energies_and_amplitudes, 4000, 80000, "at least two occupied and two virtual orbitals") { amplitudes_case(S, 8); }
PBT(amplitudes_large, 20, 300, "at least two occupied and two virtual orbitals; up to 18 orbitals") { amplitudes_case(S, 18); }

// first-order wave function in determinants (alpha part of a singlet: all spins)
struct Mp { double e = 0; vec D; };
static Mp by_determinants(const Ints& I, int no, const vec& eps) {
  int n = I.n;
  Det hf{};
  hf.a = hf.b = (1ull << no) - 1;
  std::vector<Det> ds;
  vec c;
  Mp r;
  for(auto& [d, h] : ref::apply_h(I, hf)) {
    int ex = ref::popc(d.a & ~hf.a) + ref::popc(d.b & ~hf.b);
    if(ex != 2) continue;
    double den = 0;
    for(int p = 0; p < n; ++p) den += eps[p] * ((int)((hf.a >> p) & 1) + (int)((hf.b >> p) & 1) - (int)((d.a >> p) & 1) - (int)((d.b >> p) & 1));
    ds.push_back(d);
    c.push_back(h / den);
    r.e += h * h / den;
  }
  r.D.assign(n * n, 0.);
  double nr = 0;
  for(auto x : c) nr += x * x;
  auto R = ref::rdms(n, ds, c);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q)
    r.D[p + n * q] = (p < no) != (q < no) ? 0. : R.D[p + n * q] - (p == q && p < no ? 2 * nr : 0.) + (p == q && p < no ? 2. : 0.);
  return r;
}

static void density_case(Src& S, int most) {
  int n = (int)S.edgy(1, most), no = (int)S.edgy(0, n), nv = n - no;
  auto I = gen_gapped(S, n, no);
  size_t p1 = S.below(3), p2 = S.below(3), p3 = S.below(3);
  S.note("n=%d occupied=%d padding=%zu,%zu,%zu", n, no, p1, p2, p3);
  auto eps = energies(I, no);
  double lo = 1e9, hi = -1e9;
  for(int p = 0; p < n; ++p) if(p < no) hi = std::max(hi, eps[p]); else lo = std::min(lo, eps[p]);
  if(no && nv && lo - hi < 0.2) throw pbt::Discard{};
  S.nontrivial(no > 1 && nv > 1);
  auto want = by_determinants(I, no, eps);
  double tm = 1;
  for(auto x : want.D) tm = std::max(tm, std::fabs(x));
  double tol = 1e-12 * tm * std::max(1., big(I)) * (1 + n * n * n * n);
  auto T = pin(2, n, p1, I.T), V = pin(4, n, p2, I.V), D = pout(2, n, p3), C = pout(2, n, p1);
  NumOrbital NO(n); NumCanonicalOccupied NC(no); NumCanonicalVirtual NV(nv);
  std::ostringstream os;
  vec on(n + 1, -777.25);
  {
    struct Cap { std::streambuf* o; explicit Cap(std::ostringstream& s) : o(std::cout.rdbuf(s.rdbuf())) {} ~Cap() { std::cout.rdbuf(o); } } cap(os);
    mp2_1rdm(NO, NC, NV, T.data(), T.ld, V.data(), V.ld, D.data(), D.ld);
    mp2_natural_orbitals(NO, NC, NV, T.data(), T.ld, V.data(), V.ld, on.data(), C.data(), C.ld);
  }
  double printed;
  if(sscanf(os.str().c_str(), "EMP2 = %lf", &printed) == 1) {
    S.label("energy printed");
    REQ(std::fabs(printed - want.e) <= 2e-5 * std::fabs(want.e) + 1e-12, "printed second-order energy %.6g, sum over determinants %.6g", printed, want.e);
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q)
    REQ(std::fabs(D(p, q) - want.D[p + n * q]) <= tol, "density (%d,%d): %.14g, from the first-order wave function %.14g", p, q, D(p, q), want.D[p + n * q]);
  REQ(D.touched() + C.touched() == 0 && on[n] == -777.25, "padding written");
  double tr = 0;
  for(int p = 0; p < n; ++p) tr += on[p];
  REQ(std::fabs(tr - 2 * no) <= tol, "occupations add up to %.14g, electrons %d", tr, 2 * no);
  for(int i = 0; i < n; ++i) {
    if(i) REQ(on[i] <= on[i - 1] + 1e-14 * tm, "occupations not descending: %.14g then %.14g", on[i - 1], on[i]);
    for(int j = 0; j < n; ++j) {
      double x = 0, y = 0;
      for(int p = 0; p < n; ++p) { x += C(p, i) * C(p, j); for(int q = 0; q < n; ++q) y += C(p, i) * want.D[p + n * q] * C(q, j); }
      REQ(std::fabs(x - (i == j)) <= 1e-11, "natural orbitals %d,%d have overlap %.3g", i, j, x);
      REQ(std::fabs(y - (i == j ? on[i] : 0.)) <= tol, "density in natural orbitals (%d,%d): %.14g, occupation %.14g", i, j, y, i == j ? on[i] : 0.);
    }
  }
}

PBT(density_and_orbitals, 1500, 30000, "at least two occupied and two virtual orbitals") { density_case(S, 6); }
PBT(density_large, 6, 100, "at least two occupied and two virtual orbitals; up to 9 orbitals") { density_case(S, 9); }
