// C24: sparse formats represent the same matrix after any conversion
#include <iostream>
#include "sparsegen.hpp"
#include <sparsexx/util/submatrix.hpp>
using pbt::Src;

template <class IT>
static void history(Src& S, pbt::Bulk& b) {
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, false) : gen_sp(S, b, false);
  int base = (int)S.below(2);
  S.note("base %d, %zu-bit indices:", base, sizeof(IT) * 8);
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  switch(S.below(3)) {
    case 0: for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[b.u(3000000 + k) % k]); break;
    case 1: std::sort(order.begin(), order.end(), [&](size_t x, size_t y) { return col_first(A.t[x], A.t[y]); }); break;
  }
  Coo<IT> coo = make_coo<IT>(A, base, order);
  equal(A, coo, base, "coordinate");
  Csr<IT> csr; Csc<IT> csc;
  int have = 0;  // 0 coordinate, 1 compressed row, 2 compressed column
  size_t steps = S.integer(1, 8), conv = 0;
  for(size_t s = 0; s < steps; ++s) {
    if(have == 0) {
      auto t = trips(coo);
      bool byr = std::is_sorted(t.begin(), t.end(), [](auto& x, auto& y) { return x.i < y.i; });
      bool byc = std::is_sorted(t.begin(), t.end(), [](auto& x, auto& y) { return x.j < y.j; });
      REQ(coo.is_sorted_by_row_index() == byr && coo.is_sorted_by_col_index() == byc, "is_sorted_by_* disagree with the order of the entries");
      switch(S.below(4)) {
        case 0: {
          S.note("sort by row,");
          coo.sort_by_row_index();
          auto u = trips(coo);
          REQ(std::is_sorted(u.begin(), u.end(), row_first), "not sorted by row and column");
          break;
        }
        case 1: {
          S.note("sort by column,");
          coo.sort_by_col_index();
          auto u = trips(coo);
          REQ(std::is_sorted(u.begin(), u.end(), col_first), "not sorted by column and row");
          break;
        }
        case 2: {
          S.note("to rows,");
          bool threw = false;
          try { csr = Csr<IT>(coo); } catch(std::runtime_error&) { threw = true; }
          REQ(threw == !byr, "conversion to compressed rows %s", threw ? "refuses a row-sorted matrix" : "accepts an unsorted matrix");
          if(!threw) { have = 1; ++conv; }
          break;
        }
        default: {
          S.note("to columns,");
          bool threw = false;
          try { csc = Csc<IT>(coo); } catch(std::runtime_error&) { threw = true; }
          REQ(threw == !byc, "conversion to compressed columns %s", threw ? "refuses a column-sorted matrix" : "accepts an unsorted matrix");
          if(!threw) { have = 2; ++conv; }
        }
      }
    } else if(have == 1) {
      switch(S.below(3)) {
        case 0: S.note("to coordinates,"); coo = Coo<IT>(csr); have = 0; ++conv; break;
        case 1: {
          base = (int)S.below(2);
          S.note("rebase to %d,", base);
          csr.set_indexing(base);
          break;
        }
        default: {
          S.note("copy,");
          Csr<IT> c2(csr);
          REQ(c2 == csr && !(c2 != csr), "a copy compares different");
          csr.shrink_storage_to_fit();
          REQ(csr == c2 && csr.mem_footprint() >= (int64_t)(csr.nnz() * (sizeof(IT) + 8)), "shrink_storage_to_fit changes the matrix");
          {
            Csr<IT> wide(csr.m(), csr.n() + 1, csr.nnz(), csr.indexing());
            wide.rowptr() = csr.rowptr(); wide.colind() = csr.colind(); wide.nzval() = csr.nzval();
            REQ(wide != csr && !(wide == csr), "a matrix with one more column compares equal");
          }
          if(csr.nnz()) { c2.nzval()[b.u(77) % csr.nnz()] += 1; REQ(c2 != csr && !(c2 == csr), "a different value compares equal"); }
          Csr<IT> c3(std::move(csr));
          csr = std::move(c3);
        }
      }
    } else {
      S.note("to rows,");
      csr = Csr<IT>(csc);
      have = 1;
      ++conv;
      auto t = trips(csr);
      REQ(std::is_sorted(t.begin(), t.end(), row_first), "rows converted from sorted columns are not sorted");
    }
    if(have == 0) equal(A, coo, base, "coordinate"); else if(have == 1) equal(A, csr, base, "compressed row"); else equal(A, csc, base, "compressed column");
  }
  S.nontrivial(conv && gaps(A) && A.t.size() > 1);
  if(A.m != A.n) S.label("rectangular");
  if(conv > 2) S.label("three or more conversions");
}
PBT(conversions, 12000, 400000, "at least one conversion of a matrix with an empty row or column") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) history<int32_t>(S, b); else history<int64_t>(S, b);
}

PBT(dense, 8000, 200000, "leading dimension larger than the number of rows, at least two entries") {
  pbt::Bulk b{S.seed()};
  Sp A = gen_sp(S, b, false);
  int base = (int)S.below(2), pad = (int)S.below(4);
  int64_t ld = A.m + pad;
  bool coo = S.coin();
  S.note("base %d, leading dimension %lld, from %s", base, (long long)ld, coo ? "coordinates" : "compressed rows");
  // exactly the block, so that the sanitizer sees anything outside it
  std::vector<double> D(A.n ? ld * (A.n - 1) + A.m : 0, 0.);
  const double mark = -1234.5;
  for(int64_t j = 0; j < A.n; ++j) for(int64_t i = A.m; i < ld; ++i) if(i + j * ld < (int64_t)D.size()) D[i + j * ld] = mark;
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  if(coo && S.coin()) std::reverse(order.begin(), order.end());
  if(coo) sparsexx::convert_to_dense(make_coo<int32_t>(A, base, order), D.data(), ld);
  else {
    auto csr = make_csr<int32_t>(A, base);
    if(S.coin()) csr = shuffle_rows(csr, b);
    sparsexx::convert_to_dense(csr, D.data(), ld);
  }
  for(int64_t j = 0; j < A.n; ++j) for(int64_t i = 0; i < ld; ++i) {
    if(i + j * ld >= (int64_t)D.size()) continue;
    double w = i < A.m ? A.at(i, j) : mark;
    REQ(D[i + j * ld] == w, "(%lld,%lld) is %.17g, want %.17g", (long long)i, (long long)j, D[i + j * ld], w);
  }
  if(A.m > 1) {
    bool threw = false;
    std::vector<double> E(A.m * A.n + 1);
    try { if(coo) sparsexx::convert_to_dense(make_coo<int32_t>(A, base, order), E.data(), A.m - 1); else sparsexx::convert_to_dense(make_csr<int32_t>(A, base), E.data(), A.m - 1); } catch(std::runtime_error&) { threw = true; }
    REQ(threw, "a leading dimension smaller than the number of rows is accepted");
  }
  S.nontrivial(pad && A.t.size() > 1);
}

PBT(triangle, 8000, 200000, "one triangle with off-diagonal entries and an incomplete diagonal") {
  pbt::Bulk b{S.seed()};
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, true) : gen_sp(S, b, true);
  int base = (int)S.below(2);
  S.note("base %d", base);
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  if(S.coin()) for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[b.u(3000000 + k) % k]);
  auto coo = make_coo<int64_t>(A, base, order);
  { Mute m; coo.expand_from_triangle(); }
  bool lo = false, up = false;
  size_t diag = 0;
  for(auto& e : A.t) { lo |= e.i > e.j; up |= e.i < e.j; diag += e.i == e.j; }
  Sp B = A;
  if(lo != up) for(auto& e : A.t) if(e.i != e.j) B.t.push_back({e.j, e.i, e.v});
  std::sort(B.t.begin(), B.t.end(), row_first);
  equal(B, coo, base, "expanded");
  coo.sort_by_row_index();
  equal(B, Csr<int64_t>(coo), base, "expanded, compressed");
  S.nontrivial(lo != up && diag < (size_t)A.m);
}

PBT(pieces, 8000, 200000, "entries on both sides of the diagonal and an incomplete diagonal") {
  pbt::Bulk b{S.seed()};
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, S.coin()) : gen_sp(S, b, S.coin());
  int base = (int)S.below(2);
  S.note("base %d", base);
  auto csr = make_csr<int32_t>(A, base);
  double tr = 0, atr = 0;
  size_t nd = 0;
  bool lo = false, up = false;
  Sp U = A;
  U.t.clear();
  for(auto& e : A.t) { if(e.i == e.j) { tr += e.v; atr += std::fabs(e.v); ++nd; } if(e.i <= e.j) U.t.push_back(e); lo |= e.i > e.j; up |= e.i < e.j; }
  equal(U, sparsexx::extract_upper_triangle(csr), base, "upper triangle");
  auto D = sparsexx::extract_diagonal_elements(csr);
  REQ((int64_t)D.size() == A.m, "diagonal of %zu elements", D.size());
  for(int64_t i = 0; i < A.m; ++i) REQ(D[i] == A.at(i, i), "diagonal element %lld is %.17g, want %.17g", (long long)i, D[i], A.at(i, i));
  REQ(std::fabs(sparsexx::trace(csr) - tr) <= 1e-13 * atr, "trace %.17g, want %.17g", sparsexx::trace(csr), tr);
  equal(A, csr, base, "the argument");
  // the diagonal does not depend on the order of the entries within a row
  auto mix = shuffle_rows(csr, b);
  D = sparsexx::extract_diagonal_elements(mix);
  for(int64_t i = 0; i < A.m; ++i) REQ(D[i] == A.at(i, i), "rows in another order: diagonal element %lld is %.17g, want %.17g", (long long)i, D[i], A.at(i, i));
  REQ(std::fabs(sparsexx::trace(mix) - tr) <= 1e-13 * atr, "rows in another order: trace %.17g, want %.17g", sparsexx::trace(mix), tr);
  S.nontrivial(lo && up && nd < (size_t)std::min(A.m, A.n));
}
