// C26: submatrices, permutations and adjacency graphs match the dense matrix
#include <iostream>
#include <omp.h>
#include "sparsegen.hpp"
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/permute.hpp>
#include <sparsexx/util/submatrix.hpp>
using pbt::Src;

template <class IT>
static void block(Src& S, pbt::Bulk& b) {
  Sp A = gen_sp(S, b, false);
  int base = (int)S.below(2);
  int64_t r0 = S.edgy(0, A.m), r1 = S.edgy(r0, A.m), c0 = S.edgy(0, A.n), c1 = S.edgy(c0, A.n);
  bool excl = S.coin();
  S.note("base %d rows [%lld,%lld) columns %s[%lld,%lld)", base, (long long)r0, (long long)r1, excl ? "outside " : "", (long long)c0, (long long)c1);
  auto csr = make_csr<IT>(A, base);
  Sp W;
  W.m = r1 - r0;
  W.n = excl ? A.n : c1 - c0;
  for(auto& e : A.t) {
    bool in = e.j >= c0 && e.j < c1;
    if(e.i < r0 || e.i >= r1 || in == excl) continue;
    W.t.push_back({e.i - r0, excl ? e.j : e.j - c0, e.v});
  }
  if(excl) equal(W, sparsexx::extract_submatrix_inclrow_exclcol(csr, {r0, c0}, {r1, c1}), base, "rows without the column range");
  else equal(W, sparsexx::extract_submatrix(csr, {r0, c0}, {r1, c1}), base, "submatrix");
  equal(A, csr, base, "the argument");
  S.nontrivial(W.t.size() && W.t.size() < A.t.size() && r0 + c0 > 0);
  if(empty_rows(A)) S.label("empty rows");
}
PBT(submatrix, 16000, 400000, "a proper non-empty part of the entries, range not starting at the origin") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) block<int32_t>(S, b); else block<int64_t>(S, b);
}

template <class IT>
static std::vector<IT> gperm(pbt::Bulk& b, uint64_t o, int64_t n) {
  std::vector<IT> p(n);
  std::iota(p.begin(), p.end(), 0);
  for(int64_t k = n; k > 1; --k) std::swap(p[k - 1], p[b.u(o + k) % k]);
  return p;
}
static Sp permuted(const Sp& A, const std::vector<int64_t>& r, const std::vector<int64_t>& c) {  // (i,j) <- (r[i], c[j])
  std::vector<int64_t> ri(A.m), ci(A.n);
  for(int64_t i = 0; i < A.m; ++i) ri[r[i]] = i;
  for(int64_t j = 0; j < A.n; ++j) ci[c[j]] = j;
  Sp W = A;
  for(auto& e : W.t) { e.i = ri[e.i]; e.j = ci[e.j]; }
  std::sort(W.t.begin(), W.t.end(), row_first);
  return W;
}
template <class IT>
static void perms(Src& S, pbt::Bulk& b, int threads) {
  omp_set_num_threads(threads);
  Sp A = S.coin(1, 200) ? gen_hyper(S, b, false) : gen_sp(S, b, false, threads > 1 && S.coin(1, 3) ? 300 : 12);
  int base = (int)S.below(2);
  auto csr = make_csr<IT>(A, base);
  if(S.coin(1, 3)) csr = shuffle_rows(csr, b);
  auto r = gperm<IT>(b, 4000000, A.m), c = gperm<IT>(b, 5000000, A.n);
  std::vector<int64_t> R(r.begin(), r.end()), C(c.begin(), c.end()), I(A.m), J(A.n);
  std::iota(I.begin(), I.end(), 0);
  std::iota(J.begin(), J.end(), 0);
  int what = (int)S.below(3);
  S.note("base %d permute %s", base, what == 0 ? "rows" : what == 1 ? "columns" : "both");
  Csr<IT> P = what == 0 ? sparsexx::permute_rows(csr, r) : what == 1 ? sparsexx::permute_cols(csr, c) : sparsexx::permute_rows_cols(csr, r, c);
  equal(permuted(A, what == 1 ? I : R, what == 0 ? J : C), P, base, "permuted");
  auto t = trips(P);
  if(what) REQ(std::is_sorted(t.begin(), t.end(), row_first), "the columns of a row are not ascending after a column permutation");
  // and back
  auto ir = sparsexx::invert_perm(r), ic = sparsexx::invert_perm(c);
  for(int64_t i = 0; i < A.m; ++i) REQ(ir[r[i]] == i && r[ir[i]] == i, "invert_perm");
  Csr<IT> Q = what == 0 ? sparsexx::permute_rows(P, ir) : what == 1 ? sparsexx::permute_cols(P, ic) : sparsexx::permute_rows_cols(P, ir, ic);
  equal(A, Q, base, "permuted back");
  equal(A, csr, base, "the argument");
  S.nontrivial(A.t.size() > 2 && empty_rows(A));
}
PBT(permute, 16000, 400000, "more than two entries and an empty row") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) perms<int32_t>(S, b, 1); else perms<int64_t>(S, b, 1);
}
PBT(permute_threads, 300, 10000, "more than two entries and an empty row, two to eight threads") {
  pbt::Bulk b{S.seed()};
  int t = (int)S.integer(2, 8);
  if(S.coin()) perms<int32_t>(S, b, t); else perms<int64_t>(S, b, t);
}

PBT(vectors, 8000, 100000, "more than three elements, not the identity") {
  pbt::Bulk b{S.seed()};
  int64_t n = S.coin(1, 100) ? S.integer(41, 3000) : S.edgy(0, 40);
  auto p = gperm<int64_t>(b, 1, n);
  std::vector<double> v(n), f(n), w(n);
  for(int64_t i = 0; i < n; ++i) v[i] = b.sym(1000 + i);
  S.note("%lld elements", (long long)n);
  using D = sparsexx::PermuteDirection;
  sparsexx::permute_vector(n, v.data(), p.data(), f.data(), D::Forward);
  for(int64_t i = 0; i < n; ++i) REQ(f[p[i]] == v[i], "forward: element %lld", (long long)i);
  sparsexx::permute_vector(n, v.data(), p.data(), w.data(), D::Backward);
  for(int64_t i = 0; i < n; ++i) REQ(w[i] == v[p[i]], "backward: element %lld", (long long)i);
  sparsexx::permute_vector(n, f.data(), p.data(), D::Backward);
  REQ(f == v, "forward then backward does not restore the vector");
  auto q = sparsexx::invert_perm(p);
  sparsexx::permute_vector(n, f.data(), p.data(), D::Forward);
  sparsexx::permute_vector(n, f.data(), q.data(), D::Forward);
  REQ(f == v, "forward by the permutation and its inverse does not restore the vector");
  S.nontrivial(n > 3 && !std::is_sorted(p.begin(), p.end()));
}

PBT(partition, 8000, 100000, "three or more parts, one of them empty or all of them used") {
  pbt::Bulk b{S.seed()};
  int64_t n = S.edgy(0, 40), np = S.edgy(1, 6);
  std::vector<int32_t> part(n);
  bool hole = S.coin();
  for(int64_t i = 0; i < n; ++i) { part[i] = (int32_t)(b.u(i) % np); if(hole && part[i] == np / 2) part[i] = 0; }
  S.note("%lld elements in %lld parts", (long long)n, (long long)np);
  auto [perm, ptr] = sparsexx::perm_from_part(np, part);
  REQ((int64_t)perm.size() == n && (int64_t)ptr.size() == np + 1 && ptr[0] == 0 && ptr[np] == n, "sizes");
  std::vector<int> seen(n, 0);
  for(auto x : perm) { REQ(x >= 0 && x < n && !seen[x], "not a permutation"); seen[x] = 1; }
  for(int64_t p = 0; p < np; ++p) {
    REQ(ptr[p] <= ptr[p + 1], "offsets decrease");
    for(int64_t k = ptr[p]; k < ptr[p + 1]; ++k) {
      REQ(part[perm[k]] == p, "element %d of part %d is listed in part %lld", (int)perm[k], (int)part[perm[k]], (long long)p);
      REQ(k == ptr[p] || perm[k - 1] < perm[k], "the order within a part changes");
    }
  }
  if(n) {  // a part number out of range
    auto bad = part;
    bad[b.u(99999) % n] = (int32_t)np;
    bool threw = false;
    try { sparsexx::perm_from_part(np, bad); } catch(std::runtime_error&) { threw = true; }
    REQ(threw, "a part number out of range is accepted");
  }
  S.nontrivial(np > 2 && n > 4);
}

template <class IT>
static void graph(Src& S, pbt::Bulk& b) {
  Sp A = gen_sp(S, b, S.coin(3, 4));
  int base = (int)S.below(2), rb = (int)S.below(2);
  S.note("base %d -> %d", base, rb);
  auto csr = make_csr<IT>(A, base);
  if(S.coin(1, 3)) csr = shuffle_rows(csr, b);
  auto [rp, ci] = sparsexx::extract_adjacency(csr, rb);
  Sp W = A;
  W.t.clear();
  for(auto& e : A.t) if(e.i != e.j) W.t.push_back({e.i, e.j, 1.});
  std::vector<double> one(ci.size(), 1.);
  same(W, compressed(rp, ci, one, A.m, rb, true), "adjacency");
  equal(A, csr, base, "the argument");
  S.nontrivial(W.t.size() > 1 && W.t.size() < A.t.size() && base != rb);
  if(W.t.size() + A.m > A.t.size()) S.label("incomplete diagonal");
}
PBT(adjacency, 12000, 300000, "off-diagonal and diagonal entries, different index bases") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) graph<int32_t>(S, b); else graph<int64_t>(S, b);
}
