// C05 incremental diagonals and orbital energies against full evaluation
#include "ham.hpp"
using pbt::Src;

static double diag_of(const ref::Ints& I, const ref::Det& d) {
  double e = 0;
  auto a = occ_list(d.a), b = occ_list(d.b);
  for(auto p : a) e += I.t(p, p);
  for(auto p : b) e += I.t(p, p);
  for(auto* l : {&a, &b}) for(auto p : *l) for(auto q : *l) if(p != q) e += 0.5 * (I.v(p, p, q, q) - I.v(p, q, q, p));
  for(auto p : a) for(auto q : b) e += I.v(p, p, q, q);
  return e;
}

template <size_t N>
void go(Src& S, bool wide) {
  int n = wide ? wide_norb<N>(S, true) : S.coin(1, 5) ? S.integer(8, 14) : S.edgy(1, 7);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  int na = S.edgy(0, n), nb = S.edgy(0, n);
  auto d = wide ? wide_det(S, n, na, nb) : gen_det(S, n, na, nb);
  Gen<N> G(I);
  auto& g = G.g;
  auto A = occ_list(d.a), B = occ_list(d.b);
  std::vector<uint32_t> vA, vB;
  for(int i = 0; i < n; ++i) { if(!((d.a >> i) & 1)) vA.push_back(i); if(!((d.b >> i) & 1)) vB.push_back(i); }
  double E = diag_of(I, d), tol = 1e-12 * ref::absmax(I) * (1 + (na + nb) * (na + nb));
  S.note("N=%zu n=%d parent=%s E=%g", N, n, ref::str(d, n).c_str(), E);
  S.nontrivial((!A.empty() && !vA.empty()) || (!B.empty() && !vB.empty()));
  if(n <= 6) {
    double e2 = ref::elem(I, d, d);
    REQ(std::fabs(e2 - E) <= tol, "reference formula disagrees with the operator model");
  }
  REQ(std::fabs(g.matrix_element_diag(A, B) - E) <= tol, "matrix_element_diag %.14g want %.14g", g.matrix_element_diag(A, B), E);
  REQ(std::fabs(g.matrix_element(ref::to_bits<N>(d), ref::to_bits<N>(d)) - E) <= tol, "diagonal matrix_element");
  // orbital energies
  for(int sp = 0; sp < 2; ++sp) {
    auto& ss = sp ? B : A;
    auto& os = sp ? A : B;
    auto ens = g.single_orbital_ens(n, ss, os);
    REQ((int)ens.size() == n, "number of orbital energies");
    // the energies of the first few orbitals only
    int few = (int)S.integer(0, n);
    auto head = g.single_orbital_ens(few, ss, os);
    REQ((int)head.size() == few, "%zu orbital energies, %d asked for", head.size(), few);
    for(int p = 0; p < few; ++p) REQ(head[p] == ens[p] || std::fabs(head[p] - ens[p]) <= tol, "spin %d orbital %d energy %.14g, %.14g when all are computed", sp, p, head[p], ens[p]);
    for(int p = 0; p < n; ++p) {
      auto x = d;
      (sp ? x.b : x.a) ^= 1ull << p;
      bool occ = ((sp ? d.b : d.a) >> p) & 1;
      double want = occ ? E - diag_of(I, x) : diag_of(I, x) - E;
      REQ(std::fabs(ens[p] - want) <= tol, "spin %d orbital %d energy %.14g want %.14g", sp, p, ens[p], want);
      double one = g.single_orbital_en(p, ss, os);
      REQ(std::fabs(one - want) <= tol, "single_orbital_en spin %d orbital %d %.14g want %.14g", sp, p, one, want);
    }
    auto& vv = sp ? vB : vA;
    // singles
    for(size_t t = 0; t < 3 && !ss.empty() && !vv.empty(); ++t) {
      uint32_t o = ss[S.below(ss.size())], v = vv[S.below(vv.size())];
      auto x = d;
      (sp ? x.b : x.a) ^= (1ull << o) | (1ull << v);
      double want = diag_of(I, x);
      double g1 = g.fast_diag_single(ss, os, o, v, E), g2 = g.fast_diag_single(ens[o], ens[v], o, v, E);
      REQ(std::fabs(g1 - want) <= tol, "single spin %d %u->%u: %.14g want %.14g", sp, o, v, g1, want);
      REQ(std::fabs(g2 - want) <= tol, "single from energies spin %d %u->%u: %.14g want %.14g", sp, o, v, g2, want);
      S.label("single");
    }
    // same-spin doubles
    for(size_t t = 0; t < 3 && ss.size() > 1 && vv.size() > 1; ++t) {
      size_t i = S.below(ss.size()), j = S.below(ss.size() - 1), a = S.below(vv.size()), b = S.below(vv.size() - 1);
      if(j >= i) ++j;
      if(b >= a) ++b;
      uint32_t o1 = ss[i], o2 = ss[j], v1 = vv[a], v2 = vv[b];
      auto x = d;
      (sp ? x.b : x.a) ^= (1ull << o1) | (1ull << o2) | (1ull << v1) | (1ull << v2);
      double want = diag_of(I, x);
      double g1 = g.fast_diag_ss_double(ss, os, o1, o2, v1, v2, E);
      double g2 = g.fast_diag_ss_double(ens[o1], ens[o2], ens[v1], ens[v2], o1, o2, v1, v2, E);
      REQ(std::fabs(g1 - want) <= tol, "same-spin double spin %d %u,%u->%u,%u: %.14g want %.14g", sp, o1, o2, v1, v2, g1, want);
      REQ(std::fabs(g2 - want) <= tol, "same-spin double from energies: %.14g want %.14g", g2, want);
      S.label("ss double");
    }
  }
  auto ea = g.single_orbital_ens(n, A, B), eb = g.single_orbital_ens(n, B, A);
  for(size_t t = 0; t < 3 && !A.empty() && !B.empty() && !vA.empty() && !vB.empty(); ++t) {
    uint32_t ou = A[S.below(A.size())], od = B[S.below(B.size())], vu = vA[S.below(vA.size())], vd = vB[S.below(vB.size())];
    auto x = d;
    x.a ^= (1ull << ou) | (1ull << vu);
    x.b ^= (1ull << od) | (1ull << vd);
    double want = diag_of(I, x);
    double g1 = g.fast_diag_os_double(A, B, ou, od, vu, vd, E);
    double g2 = g.fast_diag_os_double(ea[ou], eb[od], ea[vu], eb[vd], ou, od, vu, vd, E);
    REQ(std::fabs(g1 - want) <= tol, "opposite-spin double %u,%u->%u,%u: %.14g want %.14g", ou, od, vu, vd, g1, want);
    REQ(std::fabs(g2 - want) <= tol, "opposite-spin double from energies: %.14g want %.14g", g2, want);
    S.label("os double");
  }
}
PBT(fast_diagonals, 12000, 200000, "parent has an excitation") {
  if(S.below(2)) go<128>(S, false); else go<64>(S, false);
}
PBT(high_orbitals, 16, 600, "parent has an excitation; 17 to 64 orbitals") {
  if(S.below(2)) go<128>(S, true); else go<64>(S, true);
}
