// C06 sparse Hamiltonian blocks
#include "ham.hpp"
#include <macis/csr_hamiltonian.hpp>
#ifdef PBT_MPI
#include "mpi.hpp"
#endif
using pbt::Src;
using ref::Det;

static std::vector<Det> gen_list(Src& S, int n, int na, int nb, size_t maxlen) {
  auto all = ref::hilbert(n, na, nb);
  std::vector<Det> r;
  if(S.coin()) {  // cluster around one determinant
    auto k = gen_det(S, n, na, nb);
    size_t m = S.below(maxlen + 1);
    for(size_t i = 0; i < m; ++i) r.push_back(excite(S, k, n, S.below(3), S.below(3)));
  } else {
    auto p = S.perm(std::min<size_t>(all.size(), 60));
    size_t m = S.below(std::min(p.size(), maxlen) + 1), off = S.below(all.size());
    for(size_t i = 0; i < m; ++i) r.push_back(all[(p[i] + off) % all.size()]);
  }
  return r;
}
// thresholds: zero, small, equal to the size of some element, large
static double gen_thresh(Src& S, const std::vector<double>& vals) {
  switch(S.below(4)) {
    case 0: return 0;
    case 1: return std::pow(10., -(double)S.integer(1, 12));
    case 2: return vals.empty() ? 0.5 : std::fabs(vals[S.below(vals.size())]) * S.oneof({0.9, 1.1, 0.5});
    default: return S.real(0, 1.5);
  }
}
static std::vector<double> refblock(const ref::Ints& I, const std::vector<Det>& bra, const std::vector<Det>& ket) {
  std::vector<double> H(bra.size() * ket.size(), 0.);
  for(size_t j = 0; j < ket.size(); ++j) {
    auto m = ref::apply_h(I, ket[j]);
    for(size_t i = 0; i < bra.size(); ++i) { auto it = m.find(bra[i]); if(it != m.end()) H[i + j * bra.size()] = it->second; }
  }
  return H;
}
// empty string when the CSR matrix is exactly the thresholded dense matrix
template <class M, class F>
static std::string check_csr(const M& A, size_t m, size_t n, F h, double th, double tol, size_t* kept = nullptr, size_t* dropped = nullptr) {
  if((size_t)A.m() != m || (size_t)A.n() != n) return pbt::fmt("dimensions %zu x %zu, want %zu x %zu", (size_t)A.m(), (size_t)A.n(), m, n);
  if(A.indexing() != 0) return pbt::fmt("indexing %ld", (long)A.indexing());
  const auto& rp = A.rowptr(); const auto& ci = A.colind(); const auto& nz = A.nzval();
  if(rp.size() != m + 1) return pbt::fmt("rowptr has %zu entries for %zu rows", rp.size(), m);
  if(ci.size() != nz.size() || (size_t)A.nnz() != nz.size()) return pbt::fmt("colind %zu nzval %zu nnz %zu", ci.size(), nz.size(), (size_t)A.nnz());
  if(rp[0] != 0 || (size_t)rp[m] != nz.size()) return pbt::fmt("rowptr runs from %ld to %ld with %zu entries", (long)rp[0], (long)rp[m], nz.size());
  for(size_t i = 0; i < m; ++i) {
    if(rp[i + 1] < rp[i] || (size_t)rp[i + 1] > nz.size()) return pbt::fmt("rowptr not monotone at row %zu", i);
    std::vector<char> have(n, 0);
    for(auto k = rp[i]; k < rp[i + 1]; ++k) {
      if(ci[k] < 0 || (size_t)ci[k] >= n) return pbt::fmt("row %zu: column %ld out of %zu", i, (long)ci[k], n);
      if(k > rp[i] && ci[k] <= ci[k - 1]) return pbt::fmt("row %zu: columns %ld then %ld", i, (long)ci[k - 1], (long)ci[k]);
      have[ci[k]] = 1;
      double x = h(i, (size_t)ci[k]);
      if(!(std::fabs(x - nz[k]) <= tol)) return pbt::fmt("entry (%zu,%ld) = %.15g want %.15g", i, (long)ci[k], (double)nz[k], x);
      if(std::fabs(x) < th - tol || nz[k] == 0) return pbt::fmt("entry (%zu,%ld) = %.15g stored although not above threshold %g", i, (long)ci[k], (double)nz[k], th);
      if(kept) ++*kept;
    }
    for(size_t j = 0; j < n; ++j) if(!have[j]) {
      double x = h(i, j);
      if(std::fabs(x) > th + tol) return pbt::fmt("entry (%zu,%zu) = %.15g missing (threshold %g)", i, j, x, th);
      if(dropped && x != 0) ++*dropped;
    }
  }
  return "";
}

#ifndef PBT_MPI
template <size_t N, class IT>
void block(Src& S) {
  int n = S.edgy(1, 6), na = S.edgy(0, n), nb = S.edgy(0, n);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto bra = gen_list(S, n, na, nb, 14);
  bool same = S.coin();
  auto ket = same ? bra : gen_list(S, n, na, nb, 14);
  auto H = refblock(I, bra, ket);
  std::vector<double> nzv; for(auto x : H) if(x) nzv.push_back(x);
  double th = gen_thresh(S, nzv), tol = 1e-11 * ref::absmax(I) * (1 + n * n);
  Gen<N> G(I);
  // the lists sit inside longer ones, the block is given by iterators
  auto B = bitsets<N>(bra), K = bitsets<N>(ket);
  size_t pad = S.below(3);
  std::vector<std::bitset<N>> LB(pad, ref::to_bits<N>(gen_det(S, n, na, nb))); 
  LB.insert(LB.end(), B.begin(), B.end()); LB.push_back(ref::to_bits<N>(gen_det(S, n, na, nb)));
  S.note("N=%zu n=%d na=%d nb=%d bra=%zu ket=%zu%s thresh=%g", N, n, na, nb, bra.size(), ket.size(), same ? " same" : "", th);
  size_t kept = 0, dropped = 0;
  auto A = macis::make_csr_hamiltonian_block<IT>(LB.begin() + pad, LB.begin() + pad + B.size(), K.begin(), K.end(), G.g, th);
  auto e = check_csr(A, bra.size(), ket.size(), [&](size_t i, size_t j) { return H[i + j * bra.size()]; }, th, tol, &kept, &dropped);
  REQ(e.empty(), "%s", e.c_str());
  S.nontrivial(kept > 0 && bra.size() > 1);
  if(dropped) S.label("some dropped");
  if(bra.empty() || ket.empty()) S.label("empty list");
  if(same) {
    auto A2 = macis::make_csr_hamiltonian<IT>(B.begin(), B.end(), G.g, th);
    e = check_csr(A2, bra.size(), bra.size(), [&](size_t i, size_t j) { return H[i + j * bra.size()]; }, th, tol);
    REQ(e.empty(), "square: %s", e.c_str());
  }
}
PBT(blocks, 16000, 200000, "at least two rows and one stored entry") {
  switch(S.below(4)) {
    case 0: return block<64, int32_t>(S);
    case 1: return block<128, int32_t>(S);
    case 2: return block<64, int64_t>(S);
    default: return block<128, int64_t>(S);
  }
}

// many orbitals (also beyond half a machine word per spin) and longer lists
template <size_t N>
void wide(Src& S, size_t len = 0) {
  int n = len ? (int)S.integer(8, 12) : S.coin() ? wide_norb<N>(S) : (int)S.integer(7, 14), na = S.edgy(0, n), nb = S.edgy(0, n);
  ref::Ints I(n);
  pbt::Bulk b{S.seed()};
  I.fill([&](uint64_t i) { return b.sym(i) * std::pow(10., -(double)(b.u(i + 55555) % 4)); });
  auto list = [&](size_t most) {
    auto k = wide_det(S, n, na, nb);
    std::vector<Det> r;
    size_t m = S.below(most + 1);
    for(size_t i = 0; i < m; ++i) r.push_back(i && S.coin() ? excite(S, r[S.below(r.size())], n, S.below(2), S.below(2)) : excite(S, k, n, S.below(3), S.below(3)));
    return r;
  };
  auto bra = list(len ? len : n > 14 ? 40 : 150);
  bool same = S.coin();
  auto ket = same ? bra : list(len ? len : 60);
  double th = S.oneof({0., 1e-9, 1e-2, 0.3}), tol = 1e-11 * (1 + n * n);
  S.note("N=%zu n=%d na=%d nb=%d bra=%zu ket=%zu%s thresh=%g", N, n, na, nb, bra.size(), ket.size(), same ? " same" : "", th);
  Gen<N> G(I);
  auto B = bitsets<N>(bra), K = bitsets<N>(ket);
  auto A = macis::make_csr_hamiltonian_block<int32_t>(B.begin(), B.end(), K.begin(), K.end(), G.g, th);
  std::vector<double> H(bra.size() * ket.size());
  for(size_t j = 0; j < ket.size(); ++j) for(size_t i = 0; i < bra.size(); ++i) H[i + j * bra.size()] = ref::elem2(I, bra[i], ket[j]);
  size_t kept = 0;
  auto e = check_csr(A, bra.size(), ket.size(), [&](size_t i, size_t j) { return H[i + j * bra.size()]; }, th, tol, &kept);
  REQ(e.empty(), "%s", e.c_str());
  S.nontrivial(kept > 1 && bra.size() > 1);
  S.label(n > 32 ? "more than 32 orbitals" : n > 14 ? "15 to 32 orbitals" : "7 to 14 orbitals");
  if(bra.size() > 64) S.label("more than 64 rows");
  if(A.nnz() > 65536) S.label("more than 65536 entries");
}
PBT(wide_blocks, 150, 2500, "at least two rows and two stored entries; 7 to 40 orbitals, lists of up to 150 determinants") {
  if(S.below(2)) wide<128>(S); else wide<64>(S);
}
PBT(long_lists, 10, 200, "at least two rows and two stored entries; lists of up to 1200 determinants") {
  if(S.below(2)) wide<128>(S, 1200); else wide<64>(S, 1200);
}
#else
template <size_t N, class IT>
void dist(Src& S, const SubComm& C) {
  int n = S.edgy(1, 5), na = S.edgy(0, n), nb = S.edgy(0, n);
  auto I = ref::scaled(ref::gen_ints(S, n), ref::gen_scale(S));
  auto ds = gen_list(S, n, na, nb, S.coin(1, 60) ? 500 : S.coin(1, 8) ? 70 : 17);
  auto H = refblock(I, ds, ds);
  std::vector<double> nzv; for(auto x : H) if(x) nzv.push_back(x);
  double th = gen_thresh(S, nzv), tol = 1e-11 * ref::absmax(I) * (1 + n * n);
  S.note("N=%zu n=%d na=%d nb=%d dets=%zu ranks=%d thresh=%g", N, n, na, nb, ds.size(), C.size, th);
  S.nontrivial(ds.size() > 1 && C.size > 1);
  S.label(pbt::fmt("%d ranks", C.size));
  if(ds.size() < (size_t)C.size) S.label("fewer determinants than ranks");
  if(!C.in()) return;
  Gen<N> G(I);
  auto B = bitsets<N>(ds);
  size_t M = ds.size();
  auto A = macis::make_dist_csr_hamiltonian<IT>(C.c, B.begin(), B.end(), G.g, th);
  SOFT((size_t)A.m() == M && (size_t)A.n() == M);
  // the row ranges of the ranks partition the rows, and agree everywhere
  std::vector<long> bnd;
  long at = 0;
  for(int r = 0; r < C.size; ++r) {
    auto [lo, hi] = A.row_bounds(r);
    SOFT((long)lo == at && (long)hi >= at, "rank %d owns [%ld,%ld) after row %ld", r, (long)lo, (long)hi, at);
    at = hi; bnd.push_back(hi);
  }
  SOFT(at == (long)M, "rows end at %ld of %zu", at, M);
  if(!S.soft.empty()) return;
  auto [st, en] = A.row_bounds(C.rank);
  long lst = st, len = en;
  auto e = check_csr(A.diagonal_tile(), en - st, en - st, [&, lst](size_t i, size_t j) { return H[lst + i + (lst + j) * M]; }, th, tol);
  SOFT(e.empty(), "diagonal tile of rank %d: %s", C.rank, e.c_str());
  if(C.size > 1) {
    SOFT(A.off_diagonal_tile_ptr() != nullptr);
    if(S.soft.empty()) {
      e = check_csr(A.off_diagonal_tile(), en - st, M, [&, lst, len](size_t i, size_t j) { return (long)j >= lst && (long)j < len ? 0. : H[lst + i + j * M]; }, th, tol);
      SOFT(e.empty(), "off-diagonal tile of rank %d: %s", C.rank, e.c_str());
    }
  }
  for(size_t i = 0; i < M; ++i) SOFT(B[i] == ref::to_bits<N>(ds[i]), "the caller's determinant %zu was changed", i);
}
PBT(dist_blocks, 2500, 30000, "at least two determinants on at least two ranks") {
  SubComm C = gen_comm(S);
  switch(S.below(4)) {
    case 0: return dist<64, int32_t>(S, C);
    case 1: return dist<128, int32_t>(S, C);
    case 2: return dist<64, int64_t>(S, C);
    default: return dist<128, int64_t>(S, C);
  }
}
#endif
