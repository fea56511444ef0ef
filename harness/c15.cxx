// C15: FCIDUMP files
#include <fstream>
#include "ref.hpp"
#include "quiet.hpp"
#include <macis/util/fcidump.hpp>
using pbt::Src;

static double gen_val(Src& S) {
  switch(S.below(8)) {
    case 0: return 0;
    case 1: return (double)S.integer(-3, 3);
    case 2: return S.real(-1, 1) * std::pow(10., (double)S.integer(-300, 300));
    case 3: return S.coin() ? 5e-324 * S.integer(1, 1000) : -1.7976931348623157e308;
    default: return S.real(-2, 2);
  }
}
struct Dump { int n; double core; std::vector<double> T, V; };
static bool ok_rep(int p, int q, int r, int s) { return p >= q && r >= s && (p > r || (p == r && q >= s)); }
static Dump gen_dump(Src& S) {
  Dump D;
  D.n = (int)(S.coin(1, 300) ? S.integer(10, 11) : S.coin(1, 40) ? S.integer(4, 6) : S.integer(1, 3));
  if(D.n > 9) S.label("two-digit orbitals");
  int n = D.n;
  D.T.assign(n * n, 0); D.V.assign(n * n * n * n, 0);
  D.core = S.coin(1, 5) ? 0 : gen_val(S);
  int sparse = (int)S.below(3);
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) if(sparse != 2 || S.coin()) D.T[p + n * q] = D.T[q + n * p] = gen_val(S);
  pbt::Bulk b{S.seed()};
  uint64_t c = 0;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) if(ok_rep(p, q, r, s)) {
    ++c;
    double x = sparse && b.u(3 * c) % 3 == 0 ? 0 : (b.u(3 * c + 1) % 7 == 0 ? b.sym(3 * c + 2) * std::pow(10., (double)(b.u(3 * c + 1) % 600) - 300) : b.sym(3 * c + 2));
    for(auto i : {0, 1}) for(auto j : {0, 1}) {
      int P = i ? q : p, Q = i ? p : q, R = j ? s : r, T = j ? r : s;
      D.V[P + n * (Q + n * (R + n * T))] = x;
      D.V[R + n * (T + n * (P + n * Q))] = x;
    }
  }
  return D;
}
static void compare(const std::string& f, const Dump& D, double fill, const char* what) {
  int n = D.n;
  REQ((int)macis::read_fcidump_norb(f) == n, "%s: orbital count %d want %d", what, (int)macis::read_fcidump_norb(f), n);
  double c = macis::read_fcidump_core(f);
  REQ(c == D.core, "%s: core energy %.17g want %.17g", what, c, D.core);
  {
    int form = (int)(n + (D.core > 0)) & 1;
    std::vector<double> T(n * n, fill), V(n * n * n * n, fill);
    if(form) {
      macis::read_fcidump_1body(f, T.data(), n);
      macis::read_fcidump_2body(f, V.data(), n);
    } else {
      macis::read_fcidump_1body(f, macis::col_major_span<double, 2>(T.data(), n, n));
      macis::read_fcidump_2body(f, macis::col_major_span<double, 4>(V.data(), n, n, n, n));
    }
    for(int i = 0; i < n * n; ++i) REQ(T[i] == D.T[i], "%s: one-body (%d,%d) read %.17g want %.17g", what, i % n + 1, i / n + 1, T[i], D.T[i]);
    for(int i = 0; i < n * n * n * n; ++i) REQ(V[i] == D.V[i], "%s: two-body (%d,%d,%d,%d) read %.17g want %.17g", what, i % n + 1, i / n % n + 1, i / n / n % n + 1, i / n / n / n + 1, V[i], D.V[i]);
  }
}

PBT(write_then_read, 400, 20000, "two or more orbitals, or a file name written twice") {
  int k = (int)S.integer(1, 2);
  std::vector<std::pair<std::string, Dump>> files;
  bool over = false;
  remove("a.fci"); remove("b.fci");
  std::string d;
  for(int t = 0; t < k; ++t) {
    auto D = gen_dump(S);
    int n = D.n;
    std::string f = S.coin() ? "a.fci" : "b.fci";
    size_t lt = n + S.below(3), lv = n + S.below(3);
    std::vector<double> T(lt * n, NAN), V(lv * lv * lv * n, NAN);
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
      T[p + lt * q] = D.T[p + n * q];
      for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) V[p + lv * (q + lv * (r + lv * s))] = D.V[p + n * (q + n * (r + n * s))];
    }
    if(n > 1) S.nontrivial();
    d += pbt::fmt("%s n=%d ldt=%zu ldv=%zu; ", f.c_str(), n, lt, lv);
    S.note("%s", d.c_str());
    macis::write_fcidump(f, n, T.data(), lt, V.data(), lv, D.core);
    bool rep = false;
    for(auto& x : files) if(x.first == f) { x.second = D; rep = true; over = true; }
    if(!rep) files.push_back({f, D});
    if(S.coin()) for(auto& x : files) compare(x.first, x.second, NAN, "written");
  }
  if(over) { S.label("overwritten"); S.nontrivial(); }
  S.label("files" + std::to_string(k));
  for(auto& x : files) compare(x.first, x.second, NAN, "written");
}

static std::string num(Src& S, double x) {
  switch(S.below(4)) {
    case 0: return pbt::fmt("%.16e", x);
    case 1: return pbt::fmt("%.16E", x);
    case 2: return pbt::fmt("%#.17g", x);
    default: return pbt::fmt("% .20e", x);
  }
}
PBT(any_layout, 700, 30000, "two or more orbitals and lines out of order") {
  auto D = gen_dump(S);
  int n = D.n;
  bool last = S.coin(1, 4);  // value after the indices
  std::vector<std::string> lines;
  auto line = [&](int p, int q, int r, int s, double x) {
    auto g = [&] { return std::string(S.integer(1, 5), ' '); };
    std::string ix;
    for(int v : {p, q, r, s}) ix += g() + std::to_string(v);
    lines.push_back((S.coin() ? " " : "") + (last ? ix + g() + num(S, x) : num(S, x) + ix) + (S.coin(1, 4) ? "  " : ""));
  };
  bool zeros = S.coin();
  int dup = 0;
  pbt::Bulk b{S.seed()};
  uint64_t c = 0;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) if(ok_rep(p, q, r, s)) {
    double x = D.V[p + n * (q + n * (r + n * s))];
    if(x == 0 && !zeros) continue;
    int reps = b.u(++c) % 9 == 0 ? 2 : 1;
    dup += reps - 1;
    for(int k = 0; k < reps; ++k) {
      int P = p + 1, Q = q + 1, R = r + 1, T = s + 1;
      uint64_t w = b.u(1000003 * (k + 1) + c);
      if(w & 1) std::swap(P, Q);
      if(w & 2) std::swap(R, T);
      if(w & 4) { std::swap(P, R); std::swap(Q, T); }
      line(P, Q, R, T, x);
    }
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) {
    double x = D.T[p + n * q];
    if(x == 0 && !zeros && !(p == n - 1 && q == p)) continue;
    if(S.coin()) line(p + 1, q + 1, 0, 0, x); else line(q + 1, p + 1, 0, 0, x);
  }
  bool eps = S.coin(1, 3);
  if(eps) for(int p = 0; p < n; ++p) line(p + 1, 0, 0, 0, S.real(-20, 3));
  if(D.core != 0 || S.coin()) line(0, 0, 0, 0, D.core);
  bool shuffle = S.coin(2, 3);
  if(shuffle) {
    pbt::Bulk o{S.seed()};
    for(size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[o.u(i) % i]);
  }
  int hdr = (int)S.below(5);
  std::string h;
  std::string orb;
  for(int i = 0; i < n; ++i) orb += "1,";
  if(hdr == 1) h = pbt::fmt(" &FCI NORB=%4d,NELEC=%2d,MS2=0,\n  ORBSYM=%s\n  ISYM=1,\n &END\n", n, n, orb.c_str());
  if(hdr == 2) h = pbt::fmt("&FCI\nNORB=%d,\nNELEC=%d,\nMS2=0,\nUHF=.FALSE.,\nORBSYM=%s\nISYM=0,\n&END\n", n, n, orb.c_str());
  if(hdr == 3) h = pbt::fmt(" &FCI NORB= %d,NELEC= %d,MS2= 0,\n  ORBSYM=%s\n  ISYM=1\n /\n", n, n, orb.c_str());
  if(hdr == 4) h = "\n\n";
  S.note("n=%d header=%d lines=%zu eps=%d value last=%d shuffled=%d repeated=%d", n, hdr, lines.size(), eps, last, shuffle, dup);
  S.label("header" + std::to_string(hdr));
  if(eps) S.label("orbital energies");
  if(last) S.label("value last");
  if(n > 1 && shuffle) S.nontrivial();
  {
    std::ofstream o("l.fci");
    o << h;
    for(auto& l : lines) o << l << "\n";
    if(S.coin(1, 4)) o << "\n";
  }
  compare("l.fci", D, 0., "read");
}

PBT(wrong_size_refused, 200, 2000, "always") {
  auto D = gen_dump(S);
  int n = D.n, m;
  do m = (int)S.integer(1, 7); while(m == n && S.coin(63, 64));
  if(m == n) throw pbt::Discard{};
  S.nontrivial();
  S.note("file n=%d asked=%d", n, m);
  macis::write_fcidump("w.fci", n, D.T.data(), n, D.V.data(), n, D.core);
  std::vector<double> T(m * m), V(m * m * m * m);
  int thrown = 0;
  try { macis::read_fcidump_1body("w.fci", macis::col_major_span<double, 2>(T.data(), m, m)); } catch(const std::exception&) { thrown |= 1; }
  try { macis::read_fcidump_2body("w.fci", macis::col_major_span<double, 4>(V.data(), m, m, m, m)); } catch(const std::exception&) { thrown |= 2; }
  REQ(thrown == 3, "arrays of the wrong size were accepted (%d)", thrown);
}

// the orbital count is the largest index wherever it stands: every other entry of the top orbital is absent
PBT(top_orbital_once, 400, 10000, "the only line with the top orbital is not its diagonal one-body entry") {
  Dump D = gen_dump(S);
  int n = D.n;
  if(n < 2) throw pbt::Discard{};
  int t = n - 1;
  auto at = [&](int p, int q, int r, int s) -> double& { return D.V[p + n * (q + n * (r + n * s))]; };
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    if(p == t || q == t) D.T[p + n * q] = 0;
    for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) if(p == t || q == t || r == t || s == t) at(p, q, r, s) = 0;
  }
  int mask = (int)S.integer(1, 15);
  bool one = S.coin(1, 4);
  double x = S.real(0.5, 2);
  int ix[4];
  for(int k = 0; k < 4; ++k) ix[k] = (mask >> k & 1) ? t : (int)S.below(t);
  if(one) {
    mask = (int)S.integer(1, 3);
    for(int k = 0; k < 2; ++k) ix[k] = (mask >> k & 1) ? t : (int)S.below(t);
    ix[2] = ix[3] = -1;
    D.T[ix[0] + n * ix[1]] = D.T[ix[1] + n * ix[0]] = x;
  } else
    for(int i = 0; i < 8; ++i) {
      int p = ix[0], q = ix[1], r = ix[2], s = ix[3];
      if(i & 1) std::swap(p, q);
      if(i & 2) std::swap(r, s);
      if(i & 4) { std::swap(p, r); std::swap(q, s); }
      at(p, q, r, s) = x;
    }
  std::vector<std::string> lines{pbt::fmt("%.16e %d %d %d %d", x, ix[0] + 1, ix[1] + 1, ix[2] + 1, ix[3] + 1)};
  for(int p = 0; p < t; ++p) for(int q = 0; q <= p; ++q) lines.push_back(pbt::fmt("%.16e %d %d 0 0", D.T[p + n * q], p + 1, q + 1));
  for(int p = 0; p < t; ++p) for(int q = 0; q < t; ++q) for(int r = 0; r < t; ++r) for(int s = 0; s < t; ++s) if(ok_rep(p, q, r, s)) lines.push_back(pbt::fmt("%.16e %d %d %d %d", at(p, q, r, s), p + 1, q + 1, r + 1, s + 1));
  lines.push_back(pbt::fmt("%.16e 0 0 0 0", D.core));
  pbt::Bulk o{S.seed()};
  if(S.coin()) for(size_t i = lines.size(); i > 1; --i) std::swap(lines[i - 1], lines[o.u(i) % i]);
  S.note("n=%d only line with the top orbital: %d %d %d %d", n, ix[0] + 1, ix[1] + 1, ix[2] + 1, ix[3] + 1);
  S.label(one ? "one-body" : "two-body");
  if(!(one && mask == 3)) S.nontrivial();
  { std::ofstream f("t.fci"); for(auto& l : lines) f << l << "\n"; }
  compare("t.fci", D, 0., "top orbital once");
}
