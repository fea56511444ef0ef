// dense <-> sparsexx glue, written against the public accessors only
#pragma once
#include "pbt.hpp"
#include <sparsexx/matrix_types/csr_matrix.hpp>

struct Dense {
  size_t m = 0, n = 0;
  std::vector<double> a;  // column major
  Dense() = default;
  Dense(size_t m_, size_t n_) : m(m_), n(n_), a(m_ * n_, 0.) {}
  double& operator()(size_t i, size_t j) { return a[i + j * m]; }
  double operator()(size_t i, size_t j) const { return a[i + j * m]; }
};
// entries that are exactly zero are not stored
template <class IT>
sparsexx::csr_matrix<double, IT> to_csr(const Dense& D, int base = 0) {
  std::vector<IT> rp{(IT)base}, ci;
  std::vector<double> nz;
  for(size_t i = 0; i < D.m; ++i) {
    for(size_t j = 0; j < D.n; ++j) if(D(i, j) != 0) { ci.push_back((IT)j + base); nz.push_back(D(i, j)); }
    rp.push_back((IT)nz.size() + base);
  }
  sparsexx::csr_matrix<double, IT> A((IT)D.m, (IT)D.n, nz.size(), base);
  A.rowptr() = rp; A.colind() = ci; A.nzval() = nz;
  return A;
}
