// C16: wave-function text files and binary density-matrix files
#include <bitset>
#include <fstream>
#include <sstream>
#include "ref.hpp"
#include <macis/util/fcidump.hpp>
#include <macis/util/detail/rdm_files.hpp>
#include <macis/wavefunction_io.hpp>
using pbt::Src;

static double gen_coef(Src& S) {
  switch(S.below(7)) {
    case 0: return S.coin() ? 0. : -0.;
    case 1: return S.real(-1, 1) * std::pow(10., (double)S.integer(-307, 307));
    case 2: return 5e-324 * (double)S.integer(-100000, 100000);
    case 3: return S.coin() ? 1.7976931348623157e308 : -2.2250738585072014e-308;
    case 4: { uint64_t b = S.bits64(); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1; }
    default: return S.real(-1, 1);
  }
}
static bool same(double a, double b) { return !memcmp(&a, &b, 8); }

template <size_t N>
struct Wfn { size_t norb; std::vector<std::bitset<N>> d; std::vector<double> c; };
template <size_t N>
Wfn<N> gen_wfn(Src& S) {
  Wfn<N> w;
  w.norb = S.coin(1, 3) ? N / 2 : S.integer(1, N / 2);
  int na = (int)S.edgy(0, w.norb), nb = (int)S.edgy(0, w.norb), n = (int)(S.coin(1, 3) ? S.integer(1, 3) : S.coin(1, 100) ? S.integer(41, 2500) : S.integer(1, 40));
  if(n > 40) S.label("long list");
  for(int i = 0; i < n; ++i) {
    std::bitset<N> b;
    uint64_t seed = S.seed();
    pbt::Bulk u{seed};
    for(int s = 0; s < 2; ++s) {
      std::vector<int> o(w.norb);
      for(size_t k = 0; k < w.norb; ++k) o[k] = (int)k;
      int k = s ? nb : na;
      for(int j = 0; j < k; ++j) { std::swap(o[j], o[j + u.u(s * 1000 + j) % (w.norb - j)]); b.set(o[j] + s * N / 2); }
    }
    w.d.push_back(b);
    w.c.push_back(gen_coef(S));
  }
  return w;
}
template <size_t N>
void check_wfn(const std::string& f, const Wfn<N>& w, bool dirty) {
  std::vector<std::bitset<N>> d;
  std::vector<double> c;
  if(dirty) { d.assign(5, ~std::bitset<N>()); c.assign(5, 9.); }
  macis::read_wavefunction<N>(f, d, c);
  REQ(d.size() == w.d.size() && c.size() == w.c.size(), "%zu determinants and %zu coefficients read, %zu written", d.size(), c.size(), w.d.size());
  for(size_t i = 0; i < d.size(); ++i) {
    REQ(d[i] == w.d[i], "determinant %zu: %s read, %s written", i, d[i].to_string().c_str(), w.d[i].to_string().c_str());
    REQ(same(c[i], w.c[i]), "coefficient %zu: %.17g read, %.17g written", i, c[i], w.c[i]);
  }
  // the text itself, read by an independent parser
  std::ifstream in(f);
  std::string line;
  REQ((bool)std::getline(in, line), "no header");
  std::stringstream ss(line);
  long ns = -1, no = -1, na = -1, nb = -1;
  ss >> ns >> no >> na >> nb;
  long a = 0, b = 0;
  for(size_t k = 0; k < N / 2; ++k) { a += w.d[0][k]; b += w.d[0][k + N / 2]; }
  REQ(ns == (long)w.d.size() && no == (long)w.norb && na == a && nb == b, "header '%s' for %zu determinants, %zu orbitals, %ld alpha, %ld beta", line.c_str(), w.d.size(), w.norb, a, b);
  for(size_t i = 0; i < w.d.size(); ++i) {
    REQ((bool)std::getline(in, line), "line %zu missing", i);
    std::stringstream s2(line);
    std::string cs, os;
    s2 >> cs >> os;
    REQ(same(strtod(cs.c_str(), nullptr), w.c[i]), "text of coefficient %zu: %s for %.17g", i, cs.c_str(), w.c[i]);
    REQ(os.size() >= w.norb, "text of determinant %zu has %zu orbitals", i, os.size());
    for(size_t k = 0; k < N / 2; ++k) {
      bool x = w.d[i][k], y = w.d[i][k + N / 2];
      char want = x && y ? '2' : x ? 'u' : y ? 'd' : '0', got = k < os.size() ? os[k] : '0';
      REQ(want == got, "orbital %zu of determinant %zu is '%c' want '%c'", k, i, got, want);
    }
  }
  REQ(!std::getline(in, line) || line.find_first_not_of(" \t\r") == std::string::npos, "text after the last determinant");
}
template <size_t N>
void wfn_case(Src& S) {
  int k = (int)S.integer(1, 3);
  remove("w1.dat"); remove("w2.dat");
  std::map<std::string, Wfn<N>> st;
  for(int t = 0; t < k; ++t) {
    auto w = gen_wfn<N>(S);
    std::string f = S.coin() ? "w1.dat" : "w2.dat";
    if(st.count(f)) S.label("overwritten");
    if(w.d.size() > 1) S.nontrivial();
    macis::write_wavefunction<N>(f, w.norb, w.d, w.c);
    S.note("N=%zu norb=%zu n=%zu files=%d", N, w.norb, w.d.size(), k);
    st[f] = w;
    check_wfn<N>(f, st[f], S.coin());
  }
  for(auto& x : st) check_wfn<N>(x.first, x.second, true);
  // sizes that do not belong together are refused
  auto w = gen_wfn<N>(S);
  w.c.push_back(1);
  bool thrown = false;
  try { macis::write_wavefunction<N>("w3.dat", w.norb, w.d, w.c); } catch(const std::exception&) { thrown = true; }
  REQ(thrown, "lists of different length were accepted");
}
PBT(wavefunction_files, 1600, 30000, "two or more determinants") {
  if(S.coin()) wfn_case<64>(S); else wfn_case<128>(S);
}

// files in the documented format written by others: free spacing and number styles
template <size_t N>
void foreign(Src& S) {
  auto w = gen_wfn<N>(S);
  for(auto& c : w.c) c = (double)S.integer(-100000, 100000) / 1024.;
  bool shortstr = S.coin();
  {
    std::ofstream o("f.dat");
    auto sp = [&] { return std::string(S.integer(1, 4), S.coin(1, 5) ? '\t' : ' '); };
    o << w.d.size() << sp() << w.norb << sp() << 0 << sp() << 0 << "\n";
    for(size_t i = 0; i < w.d.size(); ++i) {
      std::string t;
      for(size_t k = 0; k < (shortstr ? w.norb : N / 2); ++k) t += w.d[i][k] ? (w.d[i][k + N / 2] ? '2' : 'u') : w.d[i][k + N / 2] ? 'd' : '0';
      int st = (int)S.below(3);
      o << sp() << pbt::fmt(st == 0 ? "%.10f" : st == 1 ? "%.17g" : "%+.17E", w.c[i]) << sp() << t << (S.coin(1, 4) ? " " : "") << (i + 1 < w.d.size() || S.coin() ? "\n" : "");
    }
  }
  S.note("N=%zu norb=%zu n=%zu short strings=%d", N, w.norb, w.d.size(), shortstr);
  if(w.d.size() > 1) S.nontrivial();
  std::vector<std::bitset<N>> d;
  std::vector<double> c;
  macis::read_wavefunction<N>("f.dat", d, c);
  REQ(d == w.d, "determinants differ (%zu read, %zu in the file)", d.size(), w.d.size());
  REQ(c == w.c, "coefficients differ");
}
PBT(foreign_wavefunction_files, 800, 20000, "two or more determinants") {
  if(S.coin()) foreign<64>(S); else foreign<128>(S);
}

PBT(density_matrix_files, 1600, 30000, "two or more orbitals") {
  int k = (int)S.integer(1, 3);
  struct R { int n; std::vector<double> a, b; };
  std::map<std::string, R> st;
  remove("r1.bin"); remove("r2.bin");
  auto read = [&](const std::string& f, const R& r) {
    int n = r.n;
    size_t l1 = n + S.below(3), l2 = n + S.below(3);
    const double G = -12345.5;
    std::vector<double> A(l1 * n + 4, G), B(l2 * l2 * l2 * n + 4, G);
    macis::read_rdms_binary(f, n, A.data(), l1, B.data(), l2);
    std::vector<char> sa(A.size(), 0), sb(B.size(), 0);
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
      sa[p + l1 * q] = 1;
      REQ(same(A[p + l1 * q], r.a[p + n * q]), "one-body (%d,%d): %.17g want %.17g", p, q, A[p + l1 * q], r.a[p + n * q]);
      for(int s = 0; s < n; ++s) for(int t = 0; t < n; ++t) {
        size_t i = p + l2 * (q + l2 * (s + l2 * t));
        sb[i] = 1;
        REQ(same(B[i], r.b[p + n * (q + n * (s + n * t))]), "two-body (%d,%d,%d,%d)", p, q, s, t);
      }
    }
    for(size_t i = 0; i < A.size(); ++i) REQ(sa[i] || A[i] == G, "padding of the one-body matrix was written at %zu", i);
    for(size_t i = 0; i < B.size(); ++i) REQ(sb[i] || B[i] == G, "padding of the two-body matrix was written at %zu", i);
  };
  for(int t = 0; t < k; ++t) {
    R r;
    int n = r.n = (int)S.edgy(1, 5);
    if(n > 1) S.nontrivial();
    pbt::Bulk u{S.seed()};
    r.a.resize(n * n); r.b.resize(n * n * n * n);
    uint64_t c = 0;
    auto val = [&] { ++c; return u.u(2 * c) % 5 == 0 ? 0. : u.sym(2 * c + 1) * std::pow(10., (double)(u.u(2 * c) % 21) - 10); };
    for(auto& x : r.a) x = val();
    for(auto& x : r.b) x = val();
    size_t l1 = n + S.below(3), l2 = n + S.below(3);
    std::vector<double> A(l1 * n, NAN), B(l2 * l2 * l2 * n, NAN);
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
      A[p + l1 * q] = r.a[p + n * q];
      for(int s = 0; s < n; ++s) for(int w = 0; w < n; ++w) B[p + l2 * (q + l2 * (s + l2 * w))] = r.b[p + n * (q + n * (s + n * w))];
    }
    std::string f = S.coin() ? "r1.bin" : "r2.bin";
    if(st.count(f)) S.label("overwritten");
    S.note("n=%d ld1=%zu ld2=%zu files=%d", n, l1, l2, k);
    macis::write_rdms_binary(f, n, A.data(), l1, B.data(), l2);
    st[f] = r;
    read(f, r);
  }
  for(auto& x : st) read(x.first, x.second);
  // the wrong number of orbitals, or no file
  auto& x = *st.begin();
  int m = (int)S.integer(1, 6);
  std::vector<double> A(36), B(1296);
  bool thrown = false;
  try { macis::read_rdms_binary(x.first, m, A.data(), m, B.data(), m); } catch(const std::exception&) { thrown = true; }
  REQ(thrown == (m != x.second.n), "file of %d orbitals read as %d orbitals: %s", x.second.n, m, thrown ? "refused" : "accepted");
  thrown = false;
  try { macis::read_rdms_binary("no_such_file", m, A.data(), m, B.data(), m); } catch(const std::exception&) { thrown = true; }
  REQ(thrown, "a missing file was accepted");
}
