// C07 reduced density matrices
#include "ham.hpp"
using pbt::Src;
using ref::Det;

struct Case { int n; std::vector<Det> ds; std::vector<double> C; };
static Case gen(Src& S, int nmax, size_t maxdets) {
  Case c;
  c.n = S.edgy(1, nmax);
  int na = S.edgy(0, c.n), nb = S.edgy(0, c.n);
  if(na + nb == 0) na = 1;
  auto all = ref::hilbert(c.n, na, nb);
  size_t m = 1 + S.below(std::min(all.size(), maxdets));
  if(S.coin()) {
    auto k = gen_det(S, c.n, na, nb);
    std::set<Det> s{k};
    for(size_t i = 0; i < m; ++i) s.insert(excite(S, k, c.n, S.below(3), S.below(3)));
    c.ds.assign(s.begin(), s.end());
    for(size_t i = 0; i + 1 < c.ds.size(); ++i) std::swap(c.ds[i], c.ds[i + S.below(c.ds.size() - i)]);
  } else {
    auto p = S.perm(std::min<size_t>(all.size(), maxdets + 20));
    size_t off = S.below(all.size());
    for(size_t i = 0; i < std::min(m, p.size()); ++i) c.ds.push_back(all[(p[i] + off) % all.size()]);
  }
  int mode = S.below(3);
  pbt::Bulk b{S.seed()};
  for(size_t i = 0; i < c.ds.size(); ++i)
    c.C.push_back(mode == 0 ? 1.0 : mode == 1 ? b.sym(i) : b.u(i) % 3 == 0 ? 0.0 : b.sym(i) * std::pow(10., -(double)(b.u(i + 777) % 4)));
  return c;
}
static std::string name(const Case& c) {
  std::string s = pbt::fmt("n=%d dets=%zu:", c.n, c.ds.size());
  for(size_t i = 0; i < std::min<size_t>(4, c.ds.size()); ++i) s += pbt::fmt(" %.3g|%s>", c.C[i], ref::str(c.ds[i], c.n).c_str());
  return s;
}

template <size_t N>
void full(Src& S, int most = 5, size_t dets = 20) {
  auto c = gen(S, most, dets);
  int n = c.n; size_t n4 = (size_t)n * n * n * n;
  auto R = ref::rdms(n, c.ds, c.C);
  ref::Ints I(n);
  pbt::Bulk ib{S.seed()};
  I.fill([&](uint64_t k) { return ib.sym(k); });
  Gen<N> G(I);
  auto B = bitsets<N>(c.ds);
  double start = S.coin(1, 3) ? S.real() : 0;
  std::vector<double> D(n * n, start), T(n4, start), C = c.C;
  S.note("%s", name(c).c_str());
  S.nontrivial(c.ds.size() > 1);
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(T.data(), n, n, n, n));
  REQ(C == c.C, "coefficients changed");
  double nrm = 0, tr = 0;
  for(auto x : c.C) nrm += x * x;
  double tol = 1e-12 * (1 + nrm) * (1 + c.ds.size());
  for(int p = 0; p < n; ++p) {
    tr += D[p + n * p] - start;
    for(int q = 0; q < n; ++q) {
      REQ(std::fabs(D[p + n * q] - start - R.D[p + n * q]) <= tol, "1-RDM (%d,%d) = %.14g want %.14g", p, q, D[p + n * q] - start, R.D[p + n * q]);
      REQ(std::fabs(D[p + n * q] - D[q + n * p]) <= tol, "1-RDM not symmetric at (%d,%d)", p, q);
    }
  }
  int ne = ref::popc(c.ds[0].a) + ref::popc(c.ds[0].b);
  REQ(std::fabs(tr - ne * nrm) <= tol * 10, "trace %.14g, %d electrons, norm^2 %.14g", tr, ne, nrm);
  auto at = [&](int p, int q, int r, int s) { return p + (size_t)n * (q + (size_t)n * (r + (size_t)n * s)); };
  // real orbitals: r and s of (pq|rs) are interchangeable, so compare after symmetrising
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double x = T[at(p, q, r, s)] + T[at(p, q, s, r)] - 2 * start, y = 0.5 * (R.G[at(p, q, r, s)] + R.G[at(p, q, s, r)]);
    REQ(std::fabs(x - y) <= 2 * tol, "2-RDM (%d,%d,%d,%d)+(..,%d,%d) = %.14g want %.14g", p, q, r, s, s, r, x, y);
  }
  // energy
  double e = 0, want = 0;
  for(int i = 0; i < n * n; ++i) e += (D[i] - start) * I.T[i];
  for(size_t i = 0; i < n4; ++i) e += (T[i] - start) * I.V[i];
  for(size_t j = 0; j < c.ds.size(); ++j) {
    auto m = ref::apply_h(I, c.ds[j]);
    for(size_t i = 0; i < c.ds.size(); ++i) { auto it = m.find(c.ds[i]); if(it != m.end()) want += c.C[i] * c.C[j] * it->second; }
  }
  REQ(std::fabs(e - want) <= tol * 100, "energy from the density matrices %.14g, expectation value %.14g", e, want);
  // only the one-particle matrix
  std::vector<double> D1(n * n, 0.);
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D1.data(), n, n), macis::rank4_span<double>(nullptr, 0, 0, 0, 0));
  for(int i = 0; i < n * n; ++i) REQ(std::fabs(D1[i] - R.D[i]) <= tol, "1-RDM alone: element %d = %.14g want %.14g", i, D1[i], R.D[i]);
}
PBT(full_rdms, 4000, 60000, "at least two determinants") {
  if(S.below(2)) full<128>(S); else full<64>(S);
}
PBT(many_determinants, 12, 250, "at least two determinants; lists of up to 600") {
  if(S.below(2)) full<128>(S, 7, 600); else full<64>(S, 7, 600);
}

// one pair of determinants, larger orbital counts, so that every kind of excitation
// meets every index order
template <size_t N>
void pair(Src& S) {
  int n = S.edgy(1, 9), na = S.edgy(0, n), nb = S.edgy(0, n);
  if(na + nb == 0) nb = 1;
  auto k = gen_det(S, n, na, nb);
  auto b = excite(S, k, n, S.below(3), S.below(3));
  double ck = S.real(), cb = S.real(), sc = S.coin(1, 3) ? std::ldexp(1., -(int)S.below(27)) : 1;
  std::vector<Det> ds{k}; std::vector<double> C{ck};
  if(b != k) { ds.push_back(b); C.push_back(cb); }
  for(auto& x : C) x *= sc;
  // products of coefficients of 1e-16 and less may be left out
  double tol = 1e-14 * sc * sc * std::max(1., std::max(ck * ck, cb * cb)) + 1e-15;
  S.note("n=%d %s %s", n, ref::str(k, n).c_str(), ref::str(b, n).c_str());
  int ea = ref::popc(k.a ^ b.a) / 2, eb = ref::popc(k.b ^ b.b) / 2;
  S.nontrivial(ea + eb > 0 && ea + eb <= 2 && ck != 0 && cb != 0);
  if(sc < 1e-4) S.label("tiny coefficients");
  S.label(pbt::fmt("ex%d%d", ea, eb));
  auto R = ref::rdms(n, ds, C);
  Gen<N> G{ref::Ints(n)};
  auto B = bitsets<N>(ds);
  std::vector<double> D(n * n, 0.), T((size_t)n * n * n * n, 0.), D1 = D;
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(T.data(), n, n, n, n));
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D1.data(), n, n), macis::rank4_span<double>(nullptr, 0, 0, 0, 0));
  auto at = [&](int p, int q, int r, int s) { return p + (size_t)n * (q + (size_t)n * (r + (size_t)n * s)); };
  for(int i = 0; i < n * n; ++i) {
    REQ(std::fabs(D[i] - R.D[i]) <= tol, "1-RDM element %d = %.14g want %.14g", i, D[i], R.D[i]);
    REQ(std::fabs(D1[i] - R.D[i]) <= tol, "1-RDM alone: element %d = %.14g want %.14g", i, D1[i], R.D[i]);
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s <= r; ++s) {
    double x = T[at(p, q, r, s)] + T[at(p, q, s, r)], y = 0.5 * (R.G[at(p, q, r, s)] + R.G[at(p, q, s, r)]);
    REQ(std::fabs(x - y) <= tol, "2-RDM (%d,%d,%d,%d)+(..,%d,%d) = %.14g want %.14g", p, q, r, s, s, r, x, y);
  }
}
PBT(pairs, 6000, 100000, "a single or double excitation with non-zero coefficients") {
  if(S.below(2)) pair<128>(S); else pair<64>(S);
}

// orbitals in the upper part of a spin string; everything outside the orbitals involved is zero
template <size_t N>
void wide(Src& S) {
  int n = wide_norb<N>(S), na = (int)S.integer(0, 4), nb = (int)S.integer(0, 4);
  if(na + nb == 0) na = 1;
  auto k = wide_det(S, n, na, nb);
  std::set<Det> s{k};
  size_t m = S.below(3);
  for(size_t i = 0; i < m; ++i) s.insert(excite(S, k, n, S.below(3), S.below(3)));
  std::vector<Det> ds(s.begin(), s.end());
  std::vector<double> C;
  for(size_t i = 0; i < ds.size(); ++i) C.push_back(S.real());
  S.note("n=%d %zu determinants, first %s", n, ds.size(), ref::str(ds[0], n).c_str());
  S.nontrivial(ds.size() > 1);
  S.label(n > 32 ? "more than 32 orbitals" : "17 to 32 orbitals");
  auto R = ref::rdms(n, ds, C);
  static ref::Ints zero;
  if(zero.n != n) zero = ref::Ints(n);
  Gen<N> G{zero};
  auto B = bitsets<N>(ds);
  size_t n2 = n * n, n4 = n2 * n2;
  std::vector<double> D(n2, 0.), T(n4, 0.);
  G.g.form_rdms(B.begin(), B.end(), B.begin(), B.end(), C.data(), macis::matrix_span<double>(D.data(), n, n), macis::rank4_span<double>(T.data(), n, n, n, n));
  for(size_t i = 0; i < n2; ++i) REQ(std::fabs(D[i] - R.D[i]) <= 1e-13, "1-RDM element %zu = %.14g want %.14g", i, D[i], R.D[i]);
  for(size_t u = 0, i = 0; u < (size_t)n; ++u) for(size_t r = 0; r < (size_t)n; ++r) for(size_t pq = 0; pq < n2; ++pq, ++i) {
    size_t j = pq + n2 * (u + n * r);  // r and u exchanged
    if(j > i) continue;
    double x = T[i] + T[j], y = 0.5 * (R.G[i] + R.G[j]);
    if(x != y) REQ(std::fabs(x - y) <= 1e-13, "2-RDM (%zu,%zu,%zu,%zu) with its exchanged pair = %.14g want %.14g", pq % n, pq / n, r, u, x, y);
  }
}
PBT(high_orbitals, 25, 600, "two or more determinants; 17 to 40 orbitals") {
  if(S.below(2)) wide<128>(S); else wide<64>(S);
}
