// C25: sparse matrix files round-trip
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>
#include "sparsegen.hpp"
#ifdef PBT_MPI
#include "mpi.hpp"
#endif
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
using pbt::Src;

static void spread(Src& S, pbt::Bulk& b, Sp& A) {  // values of all magnitudes
  int k = (int)S.below(4);
  for(size_t i = 0; i < A.t.size(); ++i) {
    double& v = A.t[i].v;
    if(k == 1) v *= std::pow(10., (double)(int)(b.u(7000000 + i) % 600) - 300);
    if(k == 2) v = (double)(int)(b.u(7000000 + i) % 7) - 3;
    if(k == 3) {
      const double odd[] = {5e-324, -1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 1. / 3, -0.0, 4503599627370497.5};
      v = odd[b.u(7000000 + i) % 8];
    }
  }
  S.note("values %d", k);
}
// the file formats do not record the index base: the readers take a file to be
// zero-based when index 0 occurs in it
static bool base_shows(const Sp& A, int base) {
  if(base == 1 || A.t.empty()) return base == 1;
  for(auto& e : A.t) if(e.i == 0 || e.j == 0) return true;
  return false;
}
static int half(const Sp& A) {  // one triangle with off-diagonal entries
  bool lo = false, up = false;
  for(auto& e : A.t) { lo |= e.i > e.j; up |= e.i < e.j; }
  return lo != up;
}

#ifdef SERIAL
template <class IT>
static void mm(Src& S, pbt::Bulk& b) {
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, false) : gen_sp(S, b, false);
  spread(S, b, A);
  int base = (int)S.below(2), forced = (int)S.integer(-1, 1), file = forced < 0 ? base : forced;
  int as = (int)S.below(3);
  if(!base_shows(A, file)) throw pbt::Discard{};
  S.note("base %d, forced %d, read as %d", base, forced, as);
  auto csr = make_csr<IT>(A, base);
  if(forced < 0 && S.coin()) sparsexx::write_mm("a.mtx", csr, false); else sparsexx::write_mm("a.mtx", csr, false, forced);
  equal(A, csr, base, "the argument");
  if(as == 0) equal(A, sparsexx::read_mm<Coo<IT>>("a.mtx"), file, "read back as coordinates");
  else if(as == 1) equal(A, sparsexx::read_mm<Csr<IT>>("a.mtx"), file, "read back as compressed rows");
  else equal(A, sparsexx::read_mm<Csc<IT>>("a.mtx"), file, "read back as compressed columns");
  S.nontrivial(A.t.size() > 1 && gaps(A));
  if(A.m != A.n) S.label("rectangular");
}
PBT(matrix_market, 2500, 60000, "two or more entries and an empty row or column") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) mm<int32_t>(S, b); else mm<int64_t>(S, b);
}

template <class IT>
static void bin(Src& S, pbt::Bulk& b) {
  bool sq = S.coin();
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, sq) : gen_sp(S, b, sq);
  spread(S, b, A);
  int base = (int)S.below(2);
  bool fromc = S.coin(), asc = S.coin();
  if(!base_shows(A, base)) throw pbt::Discard{};
  if(half(A) && A.m != A.n) throw pbt::Discard{};
  S.note("base %d, written from %s, read as %s", base, fromc ? "coordinates" : "rows", asc ? "coordinates" : "rows");
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[b.u(3000000 + k) % k]);
  if(fromc) sparsexx::write_binary_triplet(make_coo<IT>(A, base, order), "a.bin");
  else sparsexx::write_binary_triplet(make_csr<IT>(A, base), "a.bin");
  Sp W = A;  // a file with one triangle stands for the symmetric matrix
  if(half(A)) for(auto& e : A.t) if(e.i != e.j) W.t.push_back({e.j, e.i, e.v});
  std::sort(W.t.begin(), W.t.end(), row_first);
  Mute m;
  if(asc) equal(W, sparsexx::read_binary_triplet<Coo<IT>>("a.bin"), base, "read back as coordinates");
  else equal(W, sparsexx::read_binary_triplet<Csr<IT>>("a.bin"), base, "read back as compressed rows");
  S.nontrivial(A.t.size() > 1 && gaps(A));
  if(half(A)) S.label("one triangle");
}
PBT(binary, 3000, 80000, "two or more entries and an empty row or column") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) bin<int32_t>(S, b); else bin<int64_t>(S, b);
}

PBT(text, 3000, 80000, "symmetric, or with comments or blank lines") {
  pbt::Bulk b{S.seed()};
  bool sym = S.coin();
  Sp A = S.coin(1, 100) ? gen_hyper(S, b, sym) : gen_sp(S, b, sym);
  int field = (int)S.below(3);  // real, integer, pattern
  bool big = S.coin(1, 4);
  bool lower = S.coin(2, 3);
  if(sym) {
    std::vector<Trip> t;
    for(auto& e : A.t) if(lower ? e.i >= e.j : e.i <= e.j) t.push_back(e);
    A.t = t;
  }
  for(size_t i = 0; i < A.t.size(); ++i) {
    if(field == 1) A.t[i].v = big ? (double)((int64_t)(b.u(7000000 + i) >> 10) - (1ll << 53)) : (double)(int)(b.u(7000000 + i) % 19) - 9;
    if(field == 2) A.t[i].v = 1;
  }
  int comments = (int)S.below(3), style = (int)S.below(4);
  bool pad = S.coin(), blank_before = S.coin(1, 4), blank_after = S.coin(1, 4), nonl = S.coin(1, 4);
  std::ostringstream o;
  o.precision(17);
  o << "%%MatrixMarket matrix coordinate " << (field == 0 ? "real" : field == 1 ? "integer" : "pattern") << (sym ? " symmetric" : " general") << "\n";
  for(int c = 0; c < comments; ++c) o << (c ? "%\n" : "% 1 1 7.0 a comment\n");
  if(blank_before) o << "\n";
  o << (pad ? "  " : "") << A.m << (pad ? "   " : " ") << A.n << " " << A.t.size() << "\n";
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[b.u(3000000 + k) % k]);
  for(size_t q = 0; q < order.size(); ++q) {
    auto& e = A.t[order[q]];
    if(q) o << "\n";
    if(pad) o << "   ";
    o << e.i + 1 << " " << (pad ? "  " : "") << e.j + 1;
    if(field == 2) continue;
    o << " ";
    if(field == 1) o << (long)e.v;
    else if(style == 1) o << std::scientific << e.v << std::defaultfloat;
    else if(style == 2) o << std::showpos << e.v << std::noshowpos;
    else o << e.v;
    if(style == 3) o << "  ";
  }
  if(!nonl || blank_after) o << "\n";
  if(blank_after) o << "\n  \n";
  { std::ofstream f("t.mtx"); f << o.str(); }
  S.note("%s field %d comments %d style %d%s%s%s%s", sym ? lower ? "symmetric (lower)" : "symmetric (upper)" : "general", field, comments, style, pad ? " padded" : "", blank_before ? " blank line before the size line" : "", blank_after ? " blank lines at the end" : "", nonl ? " no final newline" : "");
  Sp W = A;
  if(sym) for(auto& e : A.t) if(e.i != e.j) W.t.push_back({e.j, e.i, e.v});
  std::sort(W.t.begin(), W.t.end(), row_first);
  int as = (int)S.below(3);
  if(as == 0) equal(W, sparsexx::read_mm<Coo<int64_t>>("t.mtx"), 1, "read as coordinates");
  else if(as == 1) equal(W, sparsexx::read_mm<Csr<int64_t>>("t.mtx"), 1, "read as compressed rows");
  else equal(W, sparsexx::read_mm<Csc<int32_t>>("t.mtx"), 1, "read as compressed columns");
  S.nontrivial(A.t.size() > 1 && (sym || comments || blank_before || blank_after));
  if(sym) S.label("symmetric");
}

PBT(rutherford_boeing, 2000, 40000, "two or more entries and an empty column, rectangular or square") {
  pbt::Bulk b{S.seed()};
  Sp A = gen_sp(S, b, false);
  spread(S, b, A);
  if(A.t.empty()) throw pbt::Discard{};
  auto csc = make_csc<int64_t>(A, 1);
  std::ofstream f("r.rb");
  f.precision(17);
  f << "generated; |key\n 3 1 1 1\nrua " << A.m << "  " << A.n << " " << A.t.size() << " 0\n(26I3) (40I2) (5E25.17)\n";
  int per = (int)S.integer(1, 9);
  S.note("%d numbers a line", per);
  auto put = [&](auto& v) { for(size_t k = 0; k < v.size(); ++k) f << " " << v[k] << (((k + 1) % per == 0 || k + 1 == v.size()) ? "\n" : " "); };
  put(csc.colptr()); put(csc.rowind()); put(csc.nzval());
  f.close();
  if(S.coin()) equal(A, sparsexx::read_rb<Csc<int64_t>>("r.rb"), 1, "read as compressed columns");
  else equal(A, sparsexx::read_rb<Csr<int64_t>>("r.rb"), 1, "read as compressed rows");
  S.nontrivial(A.t.size() > 1 && gaps(A));
}

PBT(not_matrices, 600, 6000, "always: a defective header") {
  int k = (int)S.below(5);
  const char* t[] = {"%%MatrixMarked matrix coordinate real general\n1 1 1\n1 1 2\n", "%%MatrixMarket matrix coordinate real\n1 1 1\n1 1 2\n", "%%MatrixMarket matrix coordinate real general\n1 1\n1 1 2\n",
                     "%%MatrixMarket matrix coordinate real symmetric\n1 2 1\n1 1 2\n", "%%MatrixMarket matrix coordinate real general extra\n1 1 1\n1 1 2\n"};
  { std::ofstream f("x.mtx"); f << t[k]; }
  S.note("file %d", k);
  bool threw = false;
  try { sparsexx::read_mm<Csr<int32_t>>("x.mtx"); } catch(std::runtime_error&) { threw = true; }
  REQ(threw, "a defective file is accepted");
  S.nontrivial();
}

// recorded finding: the base of a file is guessed
PBT(known_base, 0, 0, "a zero-based matrix whose first row and column are empty") {
  Sp A;
  A.m = A.n = 3;
  A.t = {{1, 1, 2.}, {2, 1, 3.}};
  sparsexx::write_mm("k.mtx", make_csr<int32_t>(A, 0), false);
  auto B = sparsexx::read_mm<Csr<int32_t>>("k.mtx");
  equal(A, B, 0, "read back");
}
#else
PBT(distributed, 1500, 20000, "two or more processes own entries") {
  pbt::Bulk b{S.seed()};
  auto C = gen_comm(S);
  Sp A = gen_sp(S, b, true, 24);
  spread(S, b, A);
  int base = (int)S.below(2), forced = (int)S.integer(-1, 1), file = forced < 0 ? 0 : forced;
  bool custom = S.coin();
  std::vector<int32_t> cut{0};
  for(int k = 1; k < C.size; ++k) cut.push_back((int32_t)(b.u(900 + k) % (A.m + 1)));
  cut.push_back((int32_t)A.m);
  std::sort(cut.begin(), cut.end());
  if(!custom) for(int k = 1; k < C.size; ++k) cut[k] = (int32_t)(A.m / C.size * k);
  if(!base_shows(A, file)) throw pbt::Discard{};
  S.note("base %d, forced %d, %d processes, %s rows", base, forced, C.size, custom ? "custom" : "default");
  if(!C.in()) return;
  std::vector<std::pair<int32_t, int32_t>> tiles;
  for(int k = 0; k < C.size; ++k) tiles.push_back({cut[k], cut[k + 1]});
  auto csr = make_csr<int32_t>(A, base);
  std::optional<sparsexx::dist_sparse_matrix<Csr<int32_t>>> D;
  if(custom) D.emplace(C.c, csr, tiles); else D.emplace(C.c, csr);
  {
    Mute m;
    if(forced < 0) sparsexx::write_dist_mm("d.mtx", *D); else sparsexx::write_dist_mm("d.mtx", *D, forced);
  }
  // the file is complete when the call returns on any process
  try {
    equal(A, sparsexx::read_mm<Csr<int32_t>>("d.mtx"), file, "read back");
    equal(A, sparsexx::read_mm<Coo<int64_t>>("d.mtx"), file, "read back");
  } catch(pbt::Fail& f) { S.soft_fail(f.msg); }
  MPI_Barrier(C.c);
  int own = 0;
  for(int k = 0; k < C.size; ++k) { bool any = false; for(auto& e : A.t) any |= e.i >= cut[k] && e.i < cut[k + 1]; own += any; }
  S.nontrivial(own > 1);
}
#endif
