// generated sparse matrices as plain triplets, and readers of the formats under test
#pragma once
#include <cassert>
#include <memory>
#include <numeric>
#include <set>
#include "pbt.hpp"
#include <sparsexx/matrix_types/csr_matrix.hpp>
#include <sparsexx/matrix_types/csc_matrix.hpp>
#include <sparsexx/matrix_types/coo_matrix.hpp>
#include <sparsexx/matrix_types/dense_conversions.hpp>

struct Trip { int64_t i, j; double v; };
struct Sp {
  int64_t m = 0, n = 0;
  std::vector<Trip> t;  // zero-based, sorted by row then column, no duplicates
  const Trip* find(int64_t i, int64_t j) const {
    auto p = std::lower_bound(t.begin(), t.end(), 0, [&](const Trip& e, int) { return e.i != i ? e.i < i : e.j < j; });
    return p != t.end() && p->i == i && p->j == j ? &*p : nullptr;
  }
  double at(int64_t i, int64_t j) const { auto p = find(i, j); return p ? p->v : 0; }
  bool has(int64_t i, int64_t j) const { return find(i, j); }
};
inline bool row_first(const Trip& a, const Trip& b) { return a.i != b.i ? a.i < b.i : a.j < b.j; }
inline bool col_first(const Trip& a, const Trip& b) { return a.j != b.j ? a.j < b.j : a.i < b.i; }

// kinds: anything, empty rows/columns, triangles, diagonal, dense
inline Sp gen_sp(pbt::Src& S, pbt::Bulk& b, bool square, int64_t hi = 12, int64_t lo = 1) {
  Sp A;
  bool large = S.coin(1, 400);
  if(large) { hi = 300; S.label("up to 300 rows"); }
  A.m = S.edgy(lo, hi);
  A.n = square ? A.m : S.edgy(lo, hi);
  int fill = (int)S.below(5), shape = (int)S.below(6);
  bool zeros = S.coin(1, 8);
  double unit = S.coin(1, 10) ? S.oneof({1e-10, 1e-17, 1e-30, 1e12}) : 1.;
  S.note("%lldx%lld fill %d shape %d%s", (long long)A.m, (long long)A.n, fill, shape, zeros ? " with stored zeros" : "");
  for(int64_t i = 0; i < A.m; ++i) for(int64_t j = 0; j < A.n; ++j) {
    uint64_t u = b.u(1000 * i + j) % 100;
    bool in = u < (uint64_t)std::vector<int>{0, 8, 30, 60, 100}[fill];
    if(shape == 1 && (b.u(500000 + i) % 2 || b.u(600000 + j) % 3 == 0)) in = false;  // empty rows and columns
    if(shape == 2 && i < j) in = false;
    if(shape == 3 && i > j) in = false;
    if(shape == 4 && (i == 0 || j == 0 || i == A.m - 1)) in = false;  // first row and column, last row empty
    if(shape == 5 && i != j && u > 10) in = false;
    if(!in) continue;
    double v = unit * b.sym(1000000 + 1000 * i + j);
    A.t.push_back({i, j, zeros && b.u(2000000 + 1000 * i + j) % 5 == 0 ? 0. : v});
  }
  return A;
}
// few entries, indices beyond 16 bits
inline Sp gen_hyper(pbt::Src& S, pbt::Bulk& b, bool square) {
  Sp A;
  A.m = S.integer(1, 200000);
  A.n = square ? A.m : S.integer(1, 200000);
  size_t k = S.integer(0, 40);
  bool clustered = S.coin();
  S.note("%lldx%lld with %zu entries", (long long)A.m, (long long)A.n, k);
  S.label("up to 200000 rows");
  std::set<std::pair<int64_t, int64_t>> at;
  for(size_t q = 0; q < k; ++q) at.insert({clustered && q % 2 ? (int64_t)(b.u(7) % A.m) : (int64_t)(b.u(10 + q) % A.m), clustered && q % 3 ? (int64_t)(b.u(8) % A.n) : (int64_t)(b.u(1000 + q) % A.n)});
  for(auto& [i, j] : at) A.t.push_back({i, j, b.sym(1000000 + 7 * i + j)});
  return A;
}
inline int64_t empty_rows(const Sp& A) {
  std::vector<int> c(A.m, 0);
  for(auto& e : A.t) c[e.i] = 1;
  return A.m - std::accumulate(c.begin(), c.end(), 0);
}
inline bool gaps(const Sp& A) {  // a row or a column without entries
  std::vector<int> r(A.m, 0), c(A.n, 0);
  for(auto& e : A.t) r[e.i] = c[e.j] = 1;
  return std::count(r.begin(), r.end(), 0) || std::count(c.begin(), c.end(), 0);
}

template <class IT> using Csr = sparsexx::csr_matrix<double, IT>;
template <class IT> using Csc = sparsexx::csc_matrix<double, IT>;
template <class IT> using Coo = sparsexx::coo_matrix<double, IT>;

template <class IT>
Coo<IT> make_coo(const Sp& A, int base, const std::vector<size_t>& order) {
  std::vector<IT> r, c;
  std::vector<double> v;
  for(auto k : order) { r.push_back((IT)(A.t[k].i + base)); c.push_back((IT)(A.t[k].j + base)); v.push_back(A.t[k].v); }
  return Coo<IT>(A.m, A.n, std::move(c), std::move(r), std::move(v), base);
}
template <class IT>
Csr<IT> make_csr(const Sp& A, int base) {  // columns ascending
  Csr<IT> B(A.m, A.n, A.t.size(), base);
  std::vector<IT> rp(A.m + 1, (IT)base), ci;
  std::vector<double> nz;
  for(auto& e : A.t) { rp[e.i + 1]++; ci.push_back((IT)(e.j + base)); nz.push_back(e.v); }
  for(int64_t i = 0; i < A.m; ++i) rp[i + 1] += rp[i] - base;
  B.rowptr() = rp; B.colind() = ci; B.nzval() = nz;
  return B;
}
// the entries of every row in any order (what compressing row-sorted triplets can give)
template <class IT>
Csr<IT> shuffle_rows(Csr<IT> B, const pbt::Bulk& b) {
  for(int64_t i = 0; i < B.m(); ++i) {
    int64_t s = B.rowptr()[i] - B.indexing(), n = B.rowptr()[i + 1] - B.rowptr()[i];
    for(int64_t k = n; k > 1; --k) {
      int64_t o = (int64_t)(b.u(7000000 + 1000 * i + k) % k);
      std::swap(B.colind()[s + k - 1], B.colind()[s + o]);
      std::swap(B.nzval()[s + k - 1], B.nzval()[s + o]);
    }
  }
  return B;
}
template <class IT>
Csc<IT> make_csc(const Sp& A, int base) {
  Csc<IT> B(A.m, A.n, A.t.size(), base);
  auto t = A.t;
  std::sort(t.begin(), t.end(), col_first);
  std::vector<IT> cp(A.n + 1, (IT)base), ri;
  std::vector<double> nz;
  for(auto& e : t) { cp[e.j + 1]++; ri.push_back((IT)(e.i + base)); nz.push_back(e.v); }
  for(int64_t j = 0; j < A.n; ++j) cp[j + 1] += cp[j] - base;
  B.colptr() = cp; B.rowind() = ri; B.nzval() = nz;
  return B;
}
inline void same(const Sp& A, std::vector<Trip> t, const char* what) {
  std::sort(t.begin(), t.end(), row_first);
  REQ(t.size() == A.t.size(), "%s: %zu entries, want %zu", what, t.size(), A.t.size());
  for(size_t k = 0; k < t.size(); ++k)
    REQ(t[k].i == A.t[k].i && t[k].j == A.t[k].j && t[k].v == A.t[k].v, "%s: entry %zu is (%lld,%lld)=%.17g, want (%lld,%lld)=%.17g", what, k, (long long)t[k].i, (long long)t[k].j, t[k].v, (long long)A.t[k].i, (long long)A.t[k].j, A.t[k].v);
}
template <class M>
void dims(const Sp& A, const M& B, int base, const char* what) {
  REQ(B.m() == A.m && B.n() == A.n, "%s: %lldx%lld, want %lldx%lld", what, (long long)B.m(), (long long)B.n(), (long long)A.m, (long long)A.n);
  REQ(B.indexing() == base, "%s: index base %lld, want %d", what, (long long)B.indexing(), base);
  REQ((size_t)B.nnz() == A.t.size() && B.nzval().size() == A.t.size(), "%s: nnz() %lld with %zu values, want %zu", what, (long long)B.nnz(), (size_t)B.nzval().size(), A.t.size());
}
// read out, checking that the arrays are well formed
template <class IT>
std::vector<Trip> trips(const Coo<IT>& B) {
  REQ(B.rowind().size() == (size_t)B.nnz() && B.colind().size() == (size_t)B.nnz() && B.nzval().size() == (size_t)B.nnz(), "COO arrays of %zu, %zu, %zu elements, nnz() %lld", B.rowind().size(), B.colind().size(), B.nzval().size(), (long long)B.nnz());
  std::vector<Trip> t;
  for(int64_t k = 0; k < B.nnz(); ++k) t.push_back({(int64_t)B.rowind()[k] - B.indexing(), (int64_t)B.colind()[k] - B.indexing(), B.nzval()[k]});
  return t;
}
template <class P, class I>
std::vector<Trip> compressed(const P& ptr, const I& ind, const std::vector<double>& v, int64_t rows, int64_t base, bool by_row) {
  REQ((int64_t)ptr.size() == rows + 1, "pointer array of %zu elements, want %lld", (size_t)ptr.size(), (long long)rows + 1);
  REQ(ptr[0] == base, "first pointer %lld, want %lld", (long long)ptr[0], (long long)base);
  REQ((int64_t)ptr[rows] == base + (int64_t)v.size(), "last pointer %lld, want %lld", (long long)ptr[rows], (long long)(base + v.size()));
  REQ(ind.size() == v.size(), "%zu indices, %zu values", (size_t)ind.size(), v.size());
  std::vector<Trip> t;
  for(int64_t r = 0; r < rows; ++r) {
    REQ(ptr[r] <= ptr[r + 1] && ptr[r] >= base, "pointers decrease: %lld, %lld", (long long)ptr[r], (long long)ptr[r + 1]);
    for(int64_t k = ptr[r] - base; k < (int64_t)ptr[r + 1] - base; ++k) {
      int64_t c = (int64_t)ind[k] - base;
      t.push_back(by_row ? Trip{r, c, v[k]} : Trip{c, r, v[k]});
    }
  }
  return t;
}
template <class IT> std::vector<Trip> trips(const Csr<IT>& B) { return compressed(B.rowptr(), B.colind(), B.nzval(), B.m(), B.indexing(), true); }
template <class IT> std::vector<Trip> trips(const Csc<IT>& B) { return compressed(B.colptr(), B.rowind(), B.nzval(), B.n(), B.indexing(), false); }
template <class M>
void equal(const Sp& A, const M& B, int base, const char* what) {
  dims(A, B, base, what);
  same(A, trips(B), what);
}
struct Mute {  // the code under test talks on standard output
  std::streambuf* o;
  Mute() : o(std::cout.rdbuf(nullptr)) {}
  ~Mute() { std::cout.rdbuf(o); std::cout.clear(); }
};
