// C33: incomplete data files are refused, failed writes are reported
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "ref.hpp"
#include "sparsegen.hpp"
#ifdef PBT_MPI
#include "mpi.hpp"
#endif
#include <sparsexx/io/read_binary_triplets.hpp>
#include <sparsexx/io/read_mm.hpp>
#include <sparsexx/io/read_rb.hpp>
#include <sparsexx/io/write_binary_triplets.hpp>
#include <sparsexx/io/write_mm.hpp>
#include <sparsexx/io/write_dist_mm.hpp>
#include <macis/util/fcidump.hpp>
#include <macis/util/detail/rdm_files.hpp>
#include <macis/wavefunction_io.hpp>
using pbt::Src;

// files may grow to this size and no further: the write that would pass it fails, as on a full disk
struct Quota {
  rlimit old;
  explicit Quota(size_t bytes) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old);
    rlimit r = old;
    r.rlim_cur = bytes;
    setrlimit(RLIMIT_FSIZE, &r);
  }
  ~Quota() { setrlimit(RLIMIT_FSIZE, &old); }
};
static std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
static void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o.write(s.data(), s.size()); }
template <class F> static bool throws(F&& f) {
  Mute m;
  try { f(); } catch(const std::exception&) { return true; }
  return false;
}
// where to cut: anywhere, near either end, at an end of line
static size_t cut_at(Src& S, const std::string& s) {
  size_t n = s.size(), k = 0;
  switch(S.below(4)) {
    case 0: k = S.below(n); break;
    case 1: k = n - 1 - S.below(std::min<size_t>(n, 40)); break;
    case 2: k = S.below(std::min<size_t>(n, 40)); break;
    default: {
      k = S.below(n);
      size_t e = s.find('\n', k);
      k = e == std::string::npos ? n - 1 : S.coin() ? e : std::min(n - 1, e + 1);
    }
  }
  return k;
}
// text: is the cut inside (or right behind a part of) the last number of the file?  Then nothing shows that it is missing
static bool inside_last(const std::string& s, size_t k) {
  size_t e = s.find_last_not_of(" \t\n"), b = s.find_last_of(" \t\n", e);
  return k > b + 1 && k <= e;
}
static bool all_there(const std::string& s, size_t k) { return k > s.find_last_not_of(" \t\n"); }

template <size_t N> struct Wfn { size_t norb; std::vector<std::bitset<N>> d; std::vector<double> c; };
template <size_t N> static Wfn<N> gen_wfn(Src& S) {
  Wfn<N> w;
  w.norb = S.coin(1, 3) ? N / 2 : S.integer(1, N / 2);
  pbt::Bulk u{S.seed()};
  int n = (int)(S.coin(1, 3) ? S.integer(1, 3) : S.coin(1, 40) ? S.integer(30, 300) : S.integer(1, 30));
  for(int i = 0; i < n; ++i) {
    std::bitset<N> b;
    for(size_t k = 0; k < w.norb; ++k) { b[k] = u.u(1000 * i + k) & 1; b[k + N / 2] = u.u(1000 * i + 500 + k) & 1; }
    w.d.push_back(b);
    w.c.push_back(u.sym(5000000 + i) * std::pow(10., -(double)(u.u(6000000 + i) % 12)));
  }
  return w;
}
static Sp gen_mat(Src& S, pbt::Bulk& b) {
  Sp A = gen_sp(S, b, false);
  if(S.coin(1, 3)) for(size_t i = 0; i < A.t.size(); ++i) A.t[i].v = (double)(int)(b.u(7000000 + i) % 7) - 3;
  return A;
}
struct Rdm { int n; std::vector<double> a, b; };
static Rdm gen_rdm(Src& S) {
  Rdm r;
  r.n = (int)S.integer(1, 6);
  pbt::Bulk u{S.seed()};
  for(int i = 0; i < r.n * r.n; ++i) r.a.push_back(u.sym(i));
  for(int i = 0; i < r.n * r.n * r.n * r.n; ++i) r.b.push_back(u.sym(1000 + i));
  return r;
}

#ifdef SERIAL
template <size_t N> static void wfn_cut(Src& S) {
  auto w = gen_wfn<N>(S);
  macis::write_wavefunction<N>("w.dat", w.norb, w.d, w.c);
  auto s = slurp("w.dat");
  size_t k = cut_at(S, s), head = s.find('\n');
  spit("w.dat", s.substr(0, k));
  S.note("N=%zu norb=%zu n=%zu, cut after %zu of %zu bytes", N, w.norb, w.d.size(), k, s.size());
  std::vector<std::bitset<N>> d;
  std::vector<double> c;
  bool t = throws([&] { macis::read_wavefunction<N>("w.dat", d, c); });
  REQ(t || (d == w.d && c == w.c), "read %zu of %zu determinants without complaint", d.size(), w.d.size());
  if(all_there(s, k)) REQ(!t, "the file lacks nothing but blanks and is refused");
  S.nontrivial(k > head && w.d.size() > 1 && t);
  if(!t) S.label("only blanks lost");
  if(k <= head) S.label("cut in the header");
}
PBT(wavefunction_cut, 2500, 60000, "cut behind the header of a file of two or more determinants, refused") {
  if(S.coin()) wfn_cut<64>(S); else wfn_cut<128>(S);
}
PBT(density_cut, 2000, 40000, "cut behind the header") {
  auto r = gen_rdm(S);
  macis::write_rdms_binary("r.bin", r.n, r.a.data(), r.n, r.b.data(), r.n);
  auto s = slurp("r.bin");
  REQ(s.size() == 4 + 8 * (r.a.size() + r.b.size()), "%zu bytes written for %d orbitals", s.size(), r.n);
  size_t k = cut_at(S, s);
  spit("r.bin", s.substr(0, k));
  S.note("%d orbitals, cut after %zu of %zu bytes", r.n, k, s.size());
  std::vector<double> a(r.a.size()), b(r.b.size());
  REQ(throws([&] { macis::read_rdms_binary("r.bin", r.n, a.data(), r.n, b.data(), r.n); }), "density matrices read from %zu of %zu bytes", k, s.size());
  S.nontrivial(k > 4);
}
template <class IT> static void triplet_cut(Src& S, pbt::Bulk& b) {
  Sp A = gen_mat(S, b);
  bool asc = S.coin();
  sparsexx::write_binary_triplet(make_csr<IT>(A, (int)S.below(2)), "a.bin");
  auto s = slurp("a.bin");
  size_t k = cut_at(S, s);
  spit("a.bin", s.substr(0, k));
  S.note("cut after %zu of %zu bytes, read as %s", k, s.size(), asc ? "coordinates" : "rows");
  bool t = throws([&] { if(asc) sparsexx::read_binary_triplet<Coo<IT>>("a.bin"); else sparsexx::read_binary_triplet<Csr<IT>>("a.bin"); });
  REQ(t, "matrix read from %zu of %zu bytes", k, s.size());
  S.nontrivial(k > 2 * sizeof(IT) + 8);
}
PBT(triplet_cut, 2500, 60000, "cut behind the header") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) triplet_cut<int32_t>(S, b); else triplet_cut<int64_t>(S, b);
}
PBT(matrix_market_cut, 3000, 80000, "cut behind the size line, refused") {
  pbt::Bulk b{S.seed()};
  bool sym = S.coin(1, 3), pattern = S.coin(1, 4);
  Sp A = gen_sp(S, b, sym);
  if(sym) { std::vector<Trip> t; for(auto& e : A.t) if(e.i >= e.j) t.push_back(e); A.t = t; }
  std::ostringstream o;
  o.precision(17);
  o << "%%MatrixMarket matrix coordinate " << (pattern ? "pattern" : "real") << (sym ? " symmetric" : " general") << "\n";
  if(S.coin()) o << "% comment\n";
  o << A.m << " " << A.n << " " << A.t.size() << "\n";
  size_t head = o.str().size();
  for(auto& e : A.t) { o << e.i + 1 << " " << e.j + 1; if(!pattern) o << " " << e.v; o << "\n"; }
  auto s = o.str();
  size_t k = cut_at(S, s);
  if(inside_last(s, k)) throw pbt::Discard{};
  spit("a.mtx", s.substr(0, k));
  int as = (int)S.below(3);
  S.note("%s%s, %zu entries, cut after %zu of %zu bytes, read as %d", sym ? "symmetric " : "", pattern ? "pattern" : "real", A.t.size(), k, s.size(), as);
  Sp W = A;
  if(sym) for(auto& e : A.t) if(e.i != e.j) W.t.push_back({e.j, e.i, e.v});
  if(pattern) for(auto& e : W.t) e.v = 1;
  std::sort(W.t.begin(), W.t.end(), row_first);
  bool full = all_there(s, k), t = throws([&] {
    if(as == 0) { auto M = sparsexx::read_mm<Coo<int64_t>>("a.mtx"); if(full) equal(W, M, 1, "read back"); }
    else if(as == 1) { auto M = sparsexx::read_mm<Csr<int64_t>>("a.mtx"); if(full) equal(W, M, 1, "read back"); }
    else { auto M = sparsexx::read_mm<Csc<int32_t>>("a.mtx"); if(full) equal(W, M, 1, "read back"); }
  });
  REQ(t != full, "%s", t ? "the file lacks nothing but blanks and is refused" : "matrix read without complaint");
  S.nontrivial(k > head && t);
}
PBT(rutherford_boeing_cut, 2000, 40000, "cut behind the header, refused") {
  pbt::Bulk b{S.seed()};
  Sp A = gen_sp(S, b, false);
  if(A.t.empty()) throw pbt::Discard{};
  auto csc = make_csc<int64_t>(A, 1);
  std::ostringstream o;
  o.precision(17);
  o << "generated; |key\n 3 1 1 1\nrua " << A.m << "  " << A.n << " " << A.t.size() << " 0\n(26I3) (40I2) (5E25.17)\n";
  size_t head = o.str().size();
  int per = (int)S.integer(1, 9);
  auto put = [&](auto& v) { for(size_t k = 0; k < v.size(); ++k) o << " " << v[k] << (((k + 1) % per == 0 || k + 1 == v.size()) ? "\n" : " "); };
  put(csc.colptr()); put(csc.rowind()); put(csc.nzval());
  auto s = o.str();
  size_t k = cut_at(S, s);
  if(inside_last(s, k)) throw pbt::Discard{};
  spit("r.rb", s.substr(0, k));
  S.note("%d numbers a line, cut after %zu of %zu bytes", per, k, s.size());
  bool full = all_there(s, k), t = throws([&] { sparsexx::read_rb<Csc<int64_t>>("r.rb"); });
  REQ(t != full, "%s", t ? "the file lacks nothing but blanks and is refused" : "matrix read without complaint");
  S.nontrivial(k > head && t);
}
PBT(no_file, 400, 8000, "always") {
  int what = (int)S.below(9);
  bool empty = what >= 4 && S.coin();
  if(empty) spit("none", ""); else { unlink("none"); if(S.coin(1, 3)) { mkdir("none_dir", 0755); } }
  S.note("reader %d, %s file", what, empty ? "empty" : "missing");
  S.nontrivial();
  double x[16] = {};
  std::vector<std::bitset<64>> d;
  std::vector<double> c;
  REQ(throws([&] {
    switch(what) {
      case 0: macis::read_fcidump_norb("none"); break;
      case 1: macis::read_fcidump_core("none"); break;
      case 2: macis::read_fcidump_1body("none", x, 1); break;
      case 3: macis::read_fcidump_2body("none", x, 1); break;
      case 4: macis::read_wavefunction<64>("none", d, c); break;
      case 5: macis::read_rdms_binary("none", 1, x, 1, x + 1, 1); break;
      case 6: sparsexx::read_binary_triplet<Csr<int32_t>>("none"); break;
      case 7: sparsexx::read_mm<Csr<int32_t>>("none"); break;
      case 8: sparsexx::read_rb<Csc<int32_t>>("none"); break;
    }
  }), "reader %d accepted a file that is %s", what, empty ? "empty" : "not there");
}
// every writer, with space for part of the file
PBT(full_disk, 4000, 80000, "the space ends behind the first byte and before the last") {
  pbt::Bulk b{S.seed()};
  int what = (int)S.below(6);
  std::function<void(const std::string&)> write;
  if(what == 0) { auto w = gen_wfn<64>(S); write = [w](auto f) { macis::write_wavefunction<64>(f, w.norb, w.d, w.c); }; }
  if(what == 1) { auto r = gen_rdm(S); write = [r](auto f) { macis::write_rdms_binary(f, r.n, r.a.data(), r.n, r.b.data(), r.n); }; }
  if(what == 2) {
    int n = (int)S.integer(1, 4);
    std::vector<double> T(n * n), V(n * n * n * n);
    for(size_t i = 0; i < T.size(); ++i) T[i] = b.sym(i);
    for(size_t i = 0; i < V.size(); ++i) V[i] = b.sym(1000 + i);
    write = [=](auto f) { macis::write_fcidump(f, n, T.data(), n, V.data(), n, -1.5); };
  }
  if(what == 3) { Sp A = gen_mat(S, b); auto M = make_csr<int32_t>(A, 1); write = [M](auto f) { sparsexx::write_binary_triplet(M, f); }; }
  if(what == 4) { Sp A = gen_mat(S, b); std::vector<size_t> o(A.t.size()); std::iota(o.begin(), o.end(), 0); auto M = make_coo<int64_t>(A, 1, o); write = [M](auto f) { sparsexx::write_binary_triplet(M, f); }; }
  if(what == 5) { Sp A = gen_mat(S, b); auto M = make_csr<int64_t>(A, 1); write = [M](auto f) { sparsexx::write_mm(f, M, false); }; }
  unlink("full"); unlink("part");
  write("full");
  auto s = slurp("full");
  if(S.coin(1, 10)) {
    S.note("writer %d, below a file that is no directory", what);
    REQ(throws([&] { write("full/part"); }), "a file that cannot be created is not reported");
  } else {
    size_t k = S.coin(1, 6) ? s.size() + S.below(20) : cut_at(S, s);
    S.note("writer %d, %zu bytes, space for %zu", what, s.size(), k);
    bool t;
    { Quota q(k); t = throws([&] { write("part"); }); }
    if(k < s.size()) REQ(t, "%zu of %zu bytes written without complaint", slurp("part").size(), s.size());
    else REQ(!t, "refused although there was space");
    if(k >= s.size()) REQ(slurp("part") == s, "another file than without the limit");
    S.nontrivial(k > 0 && k < s.size());
    S.label(pbt::fmt("writer %d", what));
  }
  // the next write is not disturbed
  write("part");
  REQ(slurp("part") == s, "the write after a failed one differs");
}
#else
PBT(distributed_full_disk, 1200, 12000, "more than one process, the space ends inside the file") {
  auto C = gen_comm(S);
  pbt::Bulk b{S.seed()};
  Sp A = gen_mat(S, b);
  while(A.m < C.size) throw pbt::Discard{};
  bool nodir = S.coin(1, 8);
  uint64_t where = S.below(1000);
  S.note("%d processes%s", C.size, nodir ? ", below a file that is no directory" : "");
  if(!C.in()) return;
  Mute m;
  auto M = make_csr<int32_t>(A, 0);
  sparsexx::dist_sparse_matrix<Csr<int32_t>> D(C.c, M);
  std::string f = pbt::fmt("d%d.mtx", C.size);
  if(nodir) {
    if(!C.rank) spit(f, "x");
    MPI_Barrier(C.c);
    bool t = throws([&] { sparsexx::write_dist_mm(f + "/x", D, 1); });
    SOFT(t, "a file that cannot be created is not reported");
    return;
  }
  sparsexx::write_dist_mm(f, D, 1);
  auto s = slurp(f);
  MPI_Barrier(C.c);
  size_t k = where < 100 ? s.size() + where : where < 400 ? s.size() - 1 - where % std::min<size_t>(s.size(), 60) : where * s.size() / 1000;
  bool t;
  { Quota q(k); t = throws([&] { sparsexx::write_dist_mm(f, D, 1); }); }
  SOFT(t == (k < s.size()), "%s with space for %zu of %zu bytes", t ? "refused" : "no complaint", k, s.size());
  MPI_Barrier(C.c);
  sparsexx::write_dist_mm(f, D, 1);
  SOFT(slurp(f) == s, "the write after a failed one differs");
  MPI_Barrier(C.c);
  S.nontrivial(C.size > 1 && k > 0 && k < s.size());
}
#endif
