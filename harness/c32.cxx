// C32: the stand-alone driver, from an input file to the energy it prints and the files it writes
#include "actspace.hpp"
#include "ham.hpp"
#include "eigref.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <spdlog/spdlog.h>
#include "mpi.hpp"
#include "../tests/ini_input.hpp"
using pbt::Src;
using ref::Det;
using ref::Ints;
using vec = std::vector<double>;

// the integrals the optimiser worked with last
static struct { int two = 0, four = 0; vec T, V, T0, V0; } rec;  // last and first
extern "C" {
using xform = void(size_t, size_t, const double*, size_t, const double*, size_t, double*, size_t);
xform __real__ZN5macis19two_index_transformEmmPKdmS1_mPdm, __real__ZN5macis20four_index_transformEmmPKdmS1_mPdm;
void __wrap__ZN5macis19two_index_transformEmmPKdmS1_mPdm(size_t o, size_t n, const double* X, size_t LX, const double* C, size_t LC, double* Y, size_t LY) {
  __real__ZN5macis19two_index_transformEmmPKdmS1_mPdm(o, n, X, LX, C, LC, Y, LY);
  ++rec.two;
  rec.T.clear();
  for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) rec.T.push_back(Y[i + LY * j]);
  if(rec.two == 1) rec.T0 = rec.T;
}
void __wrap__ZN5macis20four_index_transformEmmPKdmS1_mPdm(size_t o, size_t n, const double* X, size_t LX, const double* C, size_t LC, double* Y, size_t LY) {
  __real__ZN5macis20four_index_transformEmmPKdmS1_mPdm(o, n, X, LX, C, LC, Y, LY);
  ++rec.four;
  rec.V.clear();
  for(size_t l = 0; l < n; ++l) for(size_t k = 0; k < n; ++k) for(size_t j = 0; j < n; ++j) for(size_t i = 0; i < n; ++i) rec.V.push_back(Y[i + LY * (j + LY * (k + LY * l))]);
  if(rec.four == 1) rec.V0 = rec.V;
}
}

MPI_Comm drv_comm = MPI_COMM_NULL;
extern "C" int macis_driver(int, char**);

// ---- input files -----------------------------------------------------------
using Section = std::vector<std::pair<std::string, std::string>>;
using Input = std::vector<std::pair<std::string, Section>>;
static std::string any_case(Src& S, std::string s) {
  int m = (int)S.below(3);
  if(m) for(auto& c : s) if(m == 2 || S.coin()) c = (char)tolower(c);
  return s;
}
// order, case, spacing, separators and comments carry no meaning
static std::string text(Src& S, Input in) {
  std::string o;
  auto noise = [&] {
    switch(S.below(8)) {
      case 5: o += "\n"; break;
      case 6: o += "# a comment = 3\n"; break;
      case 7: o += "   # [CI]\n"; break;
      default: break;
    }
  };
  auto sp = [&] { return std::string(S.below(4), ' '); };
  auto shuffle = [&](auto& v) { for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[S.below(i)]); };
  if(S.coin()) shuffle(in);
  bool order = S.coin();
  for(auto& [name, keys] : in) {
    noise();
    bool indent = S.coin(1, 5);
    if(indent) o += "\n";
    o += (indent ? "  " : "") + ("[" + any_case(S, name) + "]") + sp() + "\n";
    if(order) shuffle(keys);
    for(auto& [k, v] : keys) {
      noise();
      o += any_case(S, k) + sp() + (S.coin(2, 3) ? "=" : ":") + sp() + v + sp() + (S.coin(1, 6) ? "# trailing" : "") + "\n";
    }
  }
  return o;
}
static std::string num(double x) { return pbt::fmt("%.17g", x); }
static std::string flag(bool b) { return b ? "TRUE" : "FALSE"; }

// ---- running it ------------------------------------------------------------
struct Ran { std::string out, what; bool threw = false; };
struct Redirect {  // everything printed goes to a file
  int old;
  Redirect(const char* f) {
    fflush(stdout); std::cout.flush();
    old = dup(1);
    int fd = open(f, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    close(fd);
  }
  ~Redirect() { fflush(stdout); std::cout.flush(); dup2(old, 1); close(old); }
};
static Ran drive(const SubComm& C, const std::string& in) {
  Ran r;
  rec = {};
  MPI_Barrier(C.c);
  spdlog::drop_all();
  drv_comm = C.c;
  std::string f = pbt::fmt("out.%d", pbt::world().rank);
  auto fl = std::cout.flags();
  auto pr = std::cout.precision();
  {
    Redirect d(f.c_str());
    std::string a = "driver", b = in;
    char* argv[] = {a.data(), b.data(), nullptr};
    try { macis_driver(2, argv); } catch(const std::exception& e) { r.threw = true; r.what = e.what(); }
    for(auto n : {"standalone_driver", "determinants"}) if(auto l = spdlog::get(n)) l->flush();
  }
  std::cout.flags(fl);
  std::cout.precision(pr);
  spdlog::drop_all();
  std::ifstream i(f);
  std::stringstream ss;
  ss << i.rdbuf();
  r.out = ss.str();
  MPI_Barrier(C.c);
  return r;
}
// the number after `key`, NaN if absent
static double printed(const std::string& out, const std::string& key) {
  size_t p = out.rfind(key);
  if(p == std::string::npos) return NAN;
  return strtod(out.c_str() + p + key.size(), nullptr);
}

// ---- files -----------------------------------------------------------------
static void write_ints(const std::string& f, const Ints& I) {
  std::ofstream o(f);
  o << "&FCI NORB=" << I.n << ",\n&END\n";
  int n = I.n;
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) for(int r = 0; r <= p; ++r) for(int s = 0; s <= (r == p ? q : r); ++s)
    if(I.v(p, q, r, s) != 0) o << pbt::fmt("%.17e %d %d %d %d\n", I.v(p, q, r, s), p + 1, q + 1, r + 1, s + 1);
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) o << pbt::fmt("%.17e %d %d 0 0\n", I.t(p, q), p + 1, q + 1);
  o << pbt::fmt("%.17e 0 0 0 0\n", I.core);
}
static bool read_ints(const std::string& f, Ints& I) {
  std::ifstream in(f);
  if(!in) return false;
  std::string l;
  while(std::getline(in, l)) {
    double x; int p, q, r, s;
    std::stringstream ss(l);
    std::string t[5];
    if(!(ss >> t[0] >> t[1] >> t[2] >> t[3] >> t[4])) continue;
    bool first = t[0].find('.') != std::string::npos;  // value before or after the indices
    x = atof(t[first ? 0 : 4].c_str());
    p = atoi(t[first].c_str()); q = atoi(t[first + 1].c_str()); r = atoi(t[first + 2].c_str()); s = atoi(t[first + 3].c_str());
    if(p < 0 || p > I.n || q > I.n || r > I.n || s > I.n) return false;
    if(r) I.set8(p - 1, q - 1, r - 1, s - 1, x);
    else if(q) I.t(p - 1, q - 1) = I.t(q - 1, p - 1) = x;
    else if(!p) I.core = x;
  }
  return true;
}
static std::string det_text(const Det& d) {
  std::string s(32, '0');
  for(int i = 0; i < 32; ++i) { bool a = (d.a >> i) & 1, b = (d.b >> i) & 1; s[i] = a && b ? '2' : a ? 'u' : b ? 'd' : '0'; }
  return s;
}
static bool det_read(const std::string& s, Det& d) {
  d = Det();
  for(size_t i = 0; i < s.size(); ++i) {
    if(s[i] == '2' || s[i] == 'u') d.a |= 1ull << i;
    if(s[i] == '2' || s[i] == 'd') d.b |= 1ull << i;
    if(!strchr("2ud0", s[i])) return false;
  }
  return true;
}

// ---- problems --------------------------------------------------------------
struct Prob { Space s; int ne; Ints I; };
static Prob gen_prob(Src& S, int imax = 2, int amax = 4, int vmax = 2) {
  Prob P;
  P.s = gen_space(S, imax, amax, vmax);
  if(P.s.na < 3 && !S.coin(1, 4)) { P.s.n += 3 - P.s.na; P.s.na = 3; }
  int n = P.s.n;
  P.ne = (int)S.integer(0, P.s.na);
  if(P.s.na > 1 && (P.ne == 0 || P.ne == P.s.na) && !S.coin(1, 4)) P.ne = 1 + (int)S.below(P.s.na - 1);
  P.I = Ints(n);
  pbt::Bulk b{S.seed()};
  double c = S.oneof({0.01, 0.05, 0.1, 0.3});
  P.I.fill([&](uint64_t i) { return c * b.sym(i); });
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) P.I.set8(p, p, q, q, P.I.v(p, p, q, q) + 0.4);
  for(int p = 0; p < n; ++p) P.I.t(p, p) = -6 + 1.5 * p + 0.2 * b.sym(7777777 + p);
  P.I.core = S.coin(1, 4) ? 0 : S.real(-3, 3);
  return P;
}
struct Act { Ints A; double einact; };  // einact without the core energy
static Act active(const Prob& P, const Ints& I) {
  int ni = P.s.ni, na = P.s.na;
  Act r{Ints(na), 0};
  for(int i = 0; i < ni; ++i) {
    r.einact += 2 * I.t(i, i);
    for(int j = 0; j < ni; ++j) r.einact += 2 * I.v(i, i, j, j) - I.v(i, j, j, i);
  }
  for(int x = 0; x < na; ++x) for(int y = 0; y < na; ++y) {
    double t = I.t(ni + x, ni + y);
    for(int i = 0; i < ni; ++i) t += 2 * I.v(ni + x, ni + y, i, i) - I.v(ni + x, i, i, ni + y);
    r.A.t(x, y) = t;
    for(int z = 0; z < na; ++z) for(int w = 0; w < na; ++w) r.A.v(x, y, z, w) = I.v(ni + x, ni + y, ni + z, ni + w);
  }
  return r;
}
static Sym sym_of(const Ints& A, const std::vector<Det>& ds) {
  Sym s;
  s.A = Dense(ds.size(), ds.size());
  s.A.a = ref::hmat(A, ds);
  decompose(s);
  return s;
}
static double fci(const Prob& P, const Ints& I) {
  auto ds = ref::hilbert(P.s.n, P.ne + P.s.ni, P.ne + P.s.ni);
  if(ds.size() > 100) return NAN;
  auto H = ref::hmat(I, ds);
  return ref::eigh(H, (int)ds.size())[0] + I.core;
}
// E has to be what a converged Davidson run gives
static std::string check_energy(const Sym& s, double E, double tol, int max_m, bool* low) {
  double near = 1e300;
  for(double v : s.val) near = std::min(near, std::fabs(v - E));
  if(!(near <= 1.01 * tol + 1e-10 * s.norm)) return pbt::fmt("energy %.12g is %.3g away from every eigenvalue (lowest %.12g)", E, near, s.val[0]);
  std::vector<double> x0 = guess_unique(s) ? unit_guess(s) : std::vector<double>(s.A.m, 0.);
  double gap = 1e300;
  for(double v : s.val) if(v > s.val[0] + 1e-6 * s.norm) { gap = v - s.val[0]; break; }
  if(lowest_weight(s, x0) > 0.2 && gap > 1e3 * tol) {
    if(E > s.val[0] + 2 * tol + 1e-9 * s.norm) {
      auto R = ref_davidson(s, max_m, tol, x0);
      if(R.small < 1e-5 || (R.conv && std::fabs(R.E - E) < 4 * tol + 1e-9 * s.norm)) return "";
      return pbt::fmt("energy %.12g, lowest eigenvalue %.12g", E, s.val[0]);
    }
    *low = true;
  }
  return "";
}
static bool contains(const std::string& w, const char* s) { return w.find(s) != std::string::npos; }

struct Job {
  Section ci, mc, as, pr;
  Input input() const {
    Input r{{"CI", ci}};
    if(!mc.empty()) r.push_back({"MCSCF", mc});
    if(!as.empty()) r.push_back({"ASCI", as});
    if(!pr.empty()) r.push_back({"PRINT", pr});
    return r;
  }
};
static Job basic(Src& S, const SubComm& C, const Prob& P, const char* job, const char* exp) {
  Job j;
  j.ci = {{"FCIDUMP", "in.fci"}, {"NALPHA", std::to_string(P.ne)}, {"NBETA", std::to_string(P.ne)}};
  if(C.size == 1) j.ci.push_back({"FCIDUMP_OUT", "out.fci"});  // recorded finding: several processes garble the file
  if(job[0] != 'M' || S.coin()) j.ci.push_back({"JOB", job});
  if(exp[0] != 'C' || S.coin()) j.ci.push_back({"EXPANSION", exp});
  if(P.s.ni || S.coin()) j.ci.push_back({"NINACTIVE", std::to_string(P.s.ni)});
  if(P.s.nv() || S.coin()) j.ci.push_back({"NACTIVE", std::to_string(P.s.na)});
  if(S.coin(1, 3)) j.pr.push_back({"DAVIDSON", flag(S.coin())});
  if(S.coin(1, 3)) j.pr.push_back({"CI", flag(S.coin())});
  if(S.coin(1, 3)) j.pr.push_back({"MCSCF", flag(S.coin())});
  if(S.coin(1, 3)) j.pr.push_back({"ASCI_SEARCH", flag(S.coin())});
  return j;
}
struct Files { Files(const SubComm& C) { if(C.rank == 0) for(auto f : {"in.fci", "out.fci", "in.ini", "w.dat", "wout.dat", "rdm.bin"}) remove(f); MPI_Barrier(C.c); } };
static void put(const SubComm& C, const std::string& ini, const Prob& P) {
  if(C.rank == 0) {
    std::ofstream("in.ini") << ini;
    write_ints("in.fci", P.I);
  }
}
// integrals the program left: an orthogonal transformation of those it was given
static std::string same_hamiltonian(const Prob& P, const Ints& a, bool equal) {
  if(equal) {
    for(size_t i = 0; i < a.T.size(); ++i) if(!(std::fabs(a.T[i] - P.I.T[i]) < 1e-14 * (1 + std::fabs(P.I.T[i])))) return pbt::fmt("one-body integral %zu written as %.17g, was %.17g", i, a.T[i], P.I.T[i]);
    for(size_t i = 0; i < a.V.size(); ++i) if(!(std::fabs(a.V[i] - P.I.V[i]) < 1e-14 * (1 + std::fabs(P.I.V[i])))) return pbt::fmt("two-body integral %zu written as %.17g, was %.17g", i, a.V[i], P.I.V[i]);
  }
  if(a.core != P.I.core) return pbt::fmt("core energy written as %.17g, was %.17g", a.core, P.I.core);
  double e0 = fci(P, P.I), e1 = fci(P, a);
  if(!(std::fabs(e0 - e1) < 1e-9) && !(std::isnan(e0) && std::isnan(e1))) return pbt::fmt("full-CI energy of the written integrals %.12g, of those read %.12g", e1, e0);
  return "";
}
// the integrals the calculation was given: from the file written, or as last transformed
static std::string integrals(const SubComm& C, const Prob& P, bool mp2, Ints& J) {
  if(C.size == 1) {
    if(!read_ints("out.fci", J)) return "no integral file";
    auto e = same_hamiltonian(P, J, !mp2);
    if(!mp2) J = P.I;
    return e;
  }
  J = P.I;
  if(!mp2) return "";
  if(rec.T0.size() != J.T.size() || rec.V0.size() != J.V.size()) { J.n = 0; return ""; }
  J.T = rec.T0; J.V = rec.V0;
  return same_hamiltonian(P, J, false);
}
static std::string common(const Prob& P, const Ran& r, const Ints& used) {
  auto A = active(P, used);
  double ec = printed(r.out, "ECORE = "), ei = printed(r.out, "E(inactive) = ");
  if(!(std::fabs(ec - P.I.core) < 2e-12)) return pbt::fmt("core energy printed as %.12g, is %.12g", ec, P.I.core);
  if(!(std::fabs(ei - A.einact) < 1e-9)) return pbt::fmt("inactive energy printed as %.12g, is %.12g", ei, A.einact);
  return "";
}
static std::string on_root(const SubComm& C, const std::function<std::string()>& f) {
  std::string e;
  if(C.rank == 0) e = f();
  int n = (int)e.size();
  MPI_Bcast(&n, 1, MPI_INT, 0, C.c);
  e.resize(n);
  MPI_Bcast(e.data(), n, MPI_CHAR, 0, C.c);
  return e;
}
// every rank has to report the same
static bool threw_alike(Src& S, const SubComm& C, const Ran& r) {
  bool any = C.any(r.threw), all = !C.any(!r.threw);
  SOFT(any == all, "some ranks report failure (%s), others do not", r.what.c_str());
  return any == all;
}
static bool has_mp2(const Prob& P) { int o = P.s.ni + P.ne; return o > 0 && o < P.s.n; }

static void cas(Src& S, const SubComm& C) {
  auto P = gen_prob(S);
  auto j = basic(S, C, P, "CI", "CAS");
  size_t dim = ref::hilbert(P.s.na, P.ne, P.ne).size();
  int sub = 20;
  double tol = 1e-8;
  if(!S.coin(1, 4)) { sub = (int)dim + 5; j.mc.push_back({"CI_MAX_SUB", std::to_string(sub)}); }
  if(S.coin()) { tol = S.oneof({1e-7, 1e-6, 1e-9}); j.mc.push_back({"CI_RES_TOL", num(tol)}); }
  if(S.coin()) j.mc.push_back({"CI_MATEL_TOL", S.oneof<const char*>({"0", "1e-15"})});
  bool mp2 = has_mp2(P) && S.coin(1, 3);
  if(mp2 || S.coin(1, 4)) j.mc.push_back({"MP2_GUESS", S.coin() && mp2 ? "ON" : flag(mp2)});
  double thr = 1e-2;
  bool dets = C.size == 1 && S.coin();
  if(dets) {
    j.pr.push_back({"DETERMINANTS", "TRUE"});
    if(S.coin()) { thr = S.oneof({0.001, 0.2, 0.}); j.pr.push_back({"DETERMINANTS_THRES", num(thr)}); }
  }
  auto ini = text(S, j.input());
  S.note("n=%d inactive=%d active=%d electrons=%d ranks=%d tol=%g subspace=%d mp2=%d determinants=%d", P.s.n, P.s.ni, P.s.na, P.ne, C.size, tol, sub, (int)mp2, (int)dets);
  if(!C.in()) return;
  Files F(C);
  put(C, ini, P);
  auto r = drive(C, "in.ini");
  if(!threw_alike(S, C, r)) return;
  if(r.threw) {
    SOFT(contains(r.what, "Converge") && (dim <= 4 || sub < (int)dim), "exception: %s", r.what.c_str());
    S.label("solver reports failure");
    return;
  }
  bool low = false;
  auto e = on_root(C, [&]() -> std::string {
    Ints J(P.s.n);
    auto e = integrals(C, P, mp2, J);
    if(!e.empty()) return e;
    if(!J.n) { S.label("orbitals not observed"); return ""; }
    e = common(P, r, J);
    if(!e.empty()) return e;
    auto A = active(P, J);
    auto ds = ref::hilbert(P.s.na, P.ne, P.ne);
    auto s = sym_of(A.A, ds);
    double E = printed(r.out, "E(CI)  = ") - A.einact - P.I.core;
    e = check_energy(s, E, tol, sub, &low);
    if(!e.empty() || !dets) return e;
    // the leading determinants of the vector
    if(!low || (s.val.size() > 1 && s.val[1] - s.val[0] < 0.05)) return "";
    std::map<Det, double> got;
    std::stringstream ss(r.out);
    std::string l;
    while(std::getline(ss, l)) {
      size_t p = l.find("[determinants]");
      if(p == std::string::npos || l.find("leading") != std::string::npos) continue;
      std::stringstream x(l.substr(p + 14));
      double c; std::string d; Det D;
      if(!(x >> c >> d) || !det_read(d, D)) return "line '" + l + "'";
      if(got.count(D)) return "determinant printed twice: " + l;
      got[D] = c;
    }
    double sg = 0;
    for(size_t i = 0; i < ds.size(); ++i) if(got.count(ds[i])) sg += got[ds[i]] * s.vec[i];
    sg = sg < 0 ? -1 : 1;
    size_t seen = 0;
    for(size_t i = 0; i < ds.size(); ++i) {
      double w = sg * s.vec[i];
      bool h = got.count(ds[i]);
      seen += h;
      if(h && !(std::fabs(got[ds[i]] - w) < 1e-5)) return pbt::fmt("coefficient of %s printed as %.12g, is %.12g", det_text(ds[i]).c_str(), got[ds[i]], w);
      if(h && std::fabs(w) < thr - 1e-5) return pbt::fmt("%s with coefficient %.12g printed, threshold %g", det_text(ds[i]).c_str(), w, thr);
      if(!h && std::fabs(w) > thr + 1e-5) return pbt::fmt("%s with coefficient %.12g not printed, threshold %g", det_text(ds[i]).c_str(), w, thr);
    }
    if(seen != got.size()) return "a determinant outside the active space printed";
    return "";
  });
  SOFT(e.empty(), "%s", e.c_str());
  S.nontrivial(dim > 2);
  S.label(mp2 ? "MP2 orbitals" : "given orbitals");
  if(dets) S.label("determinants printed");
}

static void asci(Src& S, const SubComm& C) {
  auto P = gen_prob(S, 2, 4, 2);
  if(P.s.na < 2) throw pbt::Discard{};
  auto j = basic(S, C, P, "CI", "ASCI");
  auto all = ref::hilbert(P.s.na, P.ne, P.ne);
  size_t F = all.size(), nt = S.coin(1, 3) ? F : S.integer(1, F);
  double tol = S.oneof({1e-8, 1e-7, 1e-6});
  j.as = {{"NTDETS_MAX", std::to_string(nt)}, {"NTDETS_MIN", std::to_string(S.integer(1, std::min<int64_t>(nt, 8)))}, {"NCDETS_MAX", std::to_string(S.coin() ? F : S.integer(1, F))}, {"WFN_OUT_FILE", "wout.dat"}};
  j.mc = {{"CI_RES_TOL", num(tol)}, {"CI_MAX_SUB", std::to_string(F + 5)}};
  if(S.coin()) j.as.push_back({"HAM_EL_TOL", S.oneof<const char*>({"0", "1e-8", "1e-12"})});
  if(S.coin()) j.as.push_back({"RV_PRUNE_TOL", S.oneof<const char*>({"0", "1e-8"})});
  if(S.coin()) j.as.push_back({"PAIR_MAX_LIM", "100000"});
  if(S.coin()) j.as.push_back({"GROW_FACTOR", std::to_string(S.integer(2, 8))});
  int ref_it = 6;
  double etol = 1e-6;
  if(S.coin()) { ref_it = (int)S.below(10); j.as.push_back({"MAX_REFINE_ITER", std::to_string(ref_it)}); }
  if(S.coin()) { etol = S.oneof({1e-3, 1e-8}); j.as.push_back({"REFINE_ETOL", num(etol)}); }
  if(S.coin()) j.as.push_back({"CONSTRAINT_LVL", std::to_string(S.below(4))});
  bool rot = S.coin(1, 4);
  size_t rs = 1000;
  if(rot) { rs = S.integer(1, F); j.as.push_back({"GROW_WITH_ROT", S.coin() ? "ON" : "TRUE"}); j.as.push_back({"ROT_SIZE_START", std::to_string(rs)}); }
  // a wave function to start from
  bool given = S.coin(1, 3), e0 = given && S.coin();
  size_t gs = S.integer(1, std::min<size_t>(nt, 6));
  auto perm = S.perm(F);
  std::vector<Det> g;
  for(size_t i = 0; i < gs; ++i) g.push_back(all[perm[i]]);
  auto A = active(P, P.I);
  auto G = sym_of(A.A, g);
  if(given) {
    j.as.push_back({"WFN_FILE", "w.dat"});
    if(e0) j.as.push_back({"E0_WFN", num(G.val[0] + A.einact + P.I.core)});
  }
  auto ini = text(S, j.input());
  S.note("n=%d inactive=%d active=%d electrons=%d ranks=%d determinants=%zu of %zu refine=%d rot=%d start=%s", P.s.n, P.s.ni, P.s.na, P.ne, C.size, nt, F, ref_it, (int)rot, given ? e0 ? "file and energy" : "file" : "Hartree-Fock");
  if(!C.in()) return;
  Files Z(C);
  put(C, ini, P);
  if(C.rank == 0 && given) {
    std::ofstream o("w.dat");
    o << gs << " " << P.s.na << " " << P.ne << " " << P.ne << "\n";
    for(size_t i = 0; i < gs; ++i) o << pbt::fmt("%25.17e %s\n", G.vec[i], det_text(g[i]).c_str());
  }
  auto r = drive(C, "in.ini");
  if(!threw_alike(S, C, r)) return;
  if(r.threw) {
    SOFT(contains(r.what, "Converge") || contains(r.what, "grow enough") || contains(r.what, "efine did not") || contains(r.what, "size can't"), "exception: %s", r.what.c_str());
    S.label(contains(r.what, "grow enough") ? "did not grow" : contains(r.what, "efine did not") ? "not refined" : contains(r.what, "size can't") ? "size changed" : "solver reports failure");
    return;
  }
  bool low = false;
  size_t nd = 0;
  auto e = on_root(C, [&]() -> std::string {
    Ints J(P.s.n);
    auto e = integrals(C, P, false, J);
    if(!e.empty()) return e;
    e = common(P, r, P.I);
    if(!e.empty()) return e;
    double E = printed(r.out, "E(CI)  = ") - A.einact - P.I.core;
    double g0 = printed(r.out, "ASCI E0 = "), gw = (given ? G.val[0] : ref::diag(A.A, Det{(1ull << P.ne) - 1, (1ull << P.ne) - 1})) + A.einact + P.I.core;
    if(!(std::fabs(g0 - gw) < 1e-9 * (1 + std::fabs(gw)))) return pbt::fmt("energy of the starting wave function printed as %.12g, is %.12g", g0, gw);
    // the wave function written
    std::ifstream in("wout.dat");
    size_t ns = 0, no = 0, ea = 99, eb = 99;
    if(!(in >> ns >> no >> ea >> eb)) return "no wave function written";
    std::vector<Det> ds;
    vec X;
    std::set<Det> seen;
    for(size_t i = 0; i < ns; ++i) {
      double c; std::string t; Det d;
      if(!(in >> c >> t) || !det_read(t, d)) return "wave function file ends early";
      if((d.a | d.b) >> P.s.na || ref::popc(d.a) != P.ne || ref::popc(d.b) != P.ne) return "determinant " + t;
      if(!seen.insert(d).second) return "determinant twice: " + t;
      ds.push_back(d); X.push_back(c);
    }
    if((int)no != P.s.na || (int)ea != P.ne || (int)eb != P.ne) return "header of the wave function file";
    nd = ns;
    if(ns != std::max<size_t>(nt, given ? gs : 1)) return pbt::fmt("%zu determinants written, %zu asked for", ns, nt);
    bool rotated = rot && nt > (given ? gs : 1);
    auto full = sym_of(A.A, all);
    if(E < full.val[0] - 1e-9 * full.norm) return pbt::fmt("energy %.12g below full CI %.12g", E, full.val[0]);
    if(ns == F && !rotated) {
      e = check_energy(full, E, tol, (int)F + 5, &low);
      if(!e.empty()) return e;
    }
    if(rotated) return "";
    if(nt <= (given ? gs : 1) && !ref_it) return std::fabs(E + A.einact + P.I.core - gw) < 1e-9 * (1 + std::fabs(gw)) ? "" : "energy changed without an iteration";
    auto s = sym_of(A.A, ds);
    auto x0 = guess_unique(s) ? unit_guess(s) : vec(ds.size(), 0.);
    return check_pair(s, E, X, tol, x0, &low, (int)F + 5);
  });
  SOFT(e.empty(), "%s", e.c_str());
  S.nontrivial(nt > 2);
  S.label(given ? "from a file" : "from Hartree-Fock");
  if(rot) S.label("with rotation");
  if(nt == F) S.label("everything requested");
}

static void mcscf(Src& S, const SubComm& C) {
  auto P = gen_prob(S, 2, 3, 2);
  auto j = basic(S, C, P, "MCSCF", "CAS");
  int na = P.s.na, ni = P.s.ni, n = P.s.n;
  j.mc.push_back({"CI_MAX_SUB", "40"});
  if(S.coin()) j.mc.push_back({"CI_RES_TOL", "1e-9"});
  int maxit = 100;
  if(S.coin(1, 3)) { maxit = (int)S.below(5); j.mc.push_back({"MAX_MACRO_ITER", std::to_string(maxit)}); }
  if(S.coin(1, 3)) j.mc.push_back({"MAX_ORB_STEP", S.oneof<const char*>({"0.5", "0.1"})});
  if(S.coin(1, 3)) j.mc.push_back({"MCSCF_ORB_TOL", S.oneof<const char*>({"1e-4", "1e-6"})});
  if(S.coin(1, 3)) j.mc.push_back({"ENABLE_DIIS", flag(S.coin())});
  if(S.coin(1, 3)) j.mc.push_back({"DIIS_START_ITER", std::to_string(S.below(6))});
  if(S.coin(1, 3)) j.mc.push_back({"DIIS_NKEEP", std::to_string(S.integer(2, 10))});
  if(S.coin(1, 3)) j.pr.push_back({"DIIS", flag(S.coin())});
  bool mp2 = has_mp2(P) && S.coin(1, 4), passed = !mp2 && S.coin(1, 3);
  if(mp2) j.mc.push_back({"MP2_GUESS", "TRUE"});
  auto A0 = active(P, P.I);
  auto ds = ref::hilbert(na, P.ne, P.ne);
  vec x(ds.size());
  if(passed) {
    j.ci.push_back({"RDMFILE", "rdm.bin"});
    auto s = sym_of(A0.A, ds);
    bool ex = S.coin();
    pbt::Bulk b{S.seed()};
    double nr = 0;
    for(size_t i = 0; i < x.size(); ++i) { x[i] = ex ? s.vec[i] : b.sym(i); nr += x[i] * x[i]; }
    if(nr < 1e-6) { x[0] = 1; nr = 1; for(size_t i = 1; i < x.size(); ++i) x[i] = 0; }
    for(auto& y : x) y /= std::sqrt(nr);
  }
  auto ini = text(S, j.input());
  S.note("n=%d inactive=%d active=%d electrons=%d ranks=%d iterations=%d mp2=%d rdms given=%d", n, ni, na, P.ne, C.size, maxit, (int)mp2, (int)passed);
  if(!C.in()) return;
  Files Z(C);
  put(C, ini, P);
  double erdm = 0;
  if(passed) {
    ActRdm R;
    auto q = ref::rdms(na, ds, x);
    R.D = q.D; R.G = q.G;
    for(auto& y : R.G) y *= 0.5;
    for(size_t i = 0; i < R.D.size(); ++i) erdm += R.D[i] * A0.A.T[i];
    for(size_t i = 0; i < R.G.size(); ++i) erdm += R.G[i] * A0.A.V[i];
    erdm += A0.einact + P.I.core;
    vec D, G;
    full_rdm(P.s, R, D, G);
    if(C.rank == 0) {
      std::ofstream o("rdm.bin", std::ios::binary);
      int k = n;
      o.write((const char*)&k, sizeof k);
      o.write((const char*)D.data(), D.size() * 8);
      o.write((const char*)G.data(), G.size() * 8);
    }
  }
  auto r = drive(C, "in.ini");
  if(!threw_alike(S, C, r)) return;
  if(r.threw) {
    SOFT(contains(r.what, "Converge") && ds.size() <= 4, "exception: %s", r.what.c_str());
    S.label("solver reports failure");
    return;
  }
  bool moved = false;
  auto e = on_root(C, [&]() -> std::string {
    Ints J(n);
    auto e = integrals(C, P, mp2, J);
    if(!e.empty()) return e;
    if(!J.n) { S.label("orbitals not observed"); return ""; }
    int own = std::min(rec.two, rec.four) - (mp2 ? 1 : 0);
    moved = own > 0 && rec.T.size() == J.T.size() && rec.V.size() == J.V.size();
    if(moved) {
      J.T = rec.T; J.V = rec.V;
      e = same_hamiltonian(P, J, false);
      if(!e.empty()) return e;
    }
    if(!moved && maxit) S.label("optimised orbitals not observed");
    double E = printed(r.out, "E(CI)  = ");
    if(!mp2) { e = common(P, r, P.I); if(!e.empty()) return e; }
    if(passed) {
      double y = printed(r.out, "E(RDM)  = ");
      if(!(std::fabs(y - erdm) < 1e-9)) return pbt::fmt("energy of the given density matrices printed as %.12g, is %.12g", y, erdm);
    }
    if(passed && !moved) return std::fabs(E - erdm) < 1e-8 ? "" : pbt::fmt("energy %.12g at the given orbitals, density matrices give %.12g", E, erdm);
    auto A = active(P, J);
    auto s = sym_of(A.A, ds);
    double want = s.val[0] + A.einact + P.I.core;
    if(!(std::fabs(E - want) < 1e-7)) return pbt::fmt("energy %.12g, exact active-space energy at the final orbitals %.12g", E, want);
    double f = fci(P, P.I);
    if(E < f - 1e-9) return pbt::fmt("energy %.12g below full CI %.12g", E, f);
    return "";
  });
  SOFT(e.empty(), "%s", e.c_str());
  S.nontrivial(ds.size() > 1 && moved);
  S.label(moved ? "orbitals changed" : "orbitals kept");
  if(mp2) S.label("MP2 orbitals");
  if(passed) S.label("density matrices given");
}

static void refuse(Src& S, const SubComm& C) {
  auto P = gen_prob(S);
  auto j = basic(S, C, P, "CI", "CAS");
  int k = (int)S.below(8);
  auto set = [&](const std::string& key, const std::string& v) {
    for(auto& x : j.ci) if(x.first == key) { x.second = v; return; }
    j.ci.push_back({key, v});
  };
  auto drop = [&](const std::string& key) { for(size_t i = 0; i < j.ci.size(); ++i) if(j.ci[i].first == key) { j.ci.erase(j.ci.begin() + i); return; } };
  switch(k) {
    case 0: set("NBETA", std::to_string(P.ne + 1)); break;
    case 1: set("NINACTIVE", std::to_string(P.s.n + S.below(3))); break;
    case 2: set("NACTIVE", std::to_string(P.s.n - P.s.ni + 1 + S.below(3))); break;
    case 3: set("JOB", S.oneof<const char*>({"CASSCF", "ci", "CI2"})); break;
    case 4: set("EXPANSION", S.oneof<const char*>({"FCI", "cas", "ASCI2"})); break;
    case 5: drop("FCIDUMP"); break;
    case 6: drop(S.coin() ? "NALPHA" : "NBETA"); break;
    case 7: set("FCIDUMP", "absent.fci"); break;
  }
  auto ini = text(S, j.input());
  S.note("defect %d", k);
  if(!C.in()) return;
  Files Z(C);
  put(C, ini, P);
  auto r = drive(C, "in.ini");
  if(!threw_alike(S, C, r)) return;
  SOFT(r.threw, "input with defect %d accepted", k);
  S.nontrivial();
}

#ifdef SERIAL
PBT(cas_energy, 700, 8000, "more than two determinants") { SubComm C(1, 0, false); cas(S, C); }
PBT(asci_energy, 700, 8000, "more than two determinants") { SubComm C(1, 0, false); asci(S, C); }
PBT(mcscf_energy, 350, 5000, "more than one determinant and orbitals that change") { SubComm C(1, 0, false); mcscf(S, C); }
PBT(refused, 300, 3000, "always: a defective input") { SubComm C(1, 0, false); refuse(S, C); }
PBT(input_file, 2000, 30000, "two or more sections or five or more keywords") {
  int ns = (int)S.integer(1, 4);
  Input in;
  std::map<std::string, std::string> want;
  std::set<std::string> ints, reals;
  auto word = [&](size_t n) {
    std::string w(1, (char)('A' + S.below(26)));
    const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
    for(size_t i = 1; i < n; ++i) w += al[S.below(38)];
    return w;
  };
  size_t keys = 0;
  for(int i = 0; i < ns; ++i) {
    std::string sn = word(1 + S.below(6));
    bool dup = false;
    for(auto& x : in) dup |= x.first == sn;
    if(dup) continue;
    Section s;
    int nk = (int)S.below(6);
    for(int k = 0; k < nk; ++k) {
      std::string kn = word(1 + S.below(8)), v;
      if(want.count(sn + "." + kn)) continue;
      switch(S.below(5)) {
        case 0: v = std::to_string(S.integer(-1000, 1000000)); ints.insert(sn + "." + kn); break;
        case 1: reals.insert(sn + "." + kn); v = num(S.real(-1, 1) * std::pow(10., (double)S.integer(-30, 30))); break;
        case 2: v = S.oneof<const char*>({"TRUE", "FALSE", "ON", "OFF"}); break;
        case 3: v = "dir/" + word(5) + ".dat"; break;
        default: v = word(3) + " " + word(4); break;
      }
      want[sn + "." + kn] = v;
      s.push_back({kn, v});
      ++keys;
    }
    in.push_back({sn, s});
  }
  auto t = text(S, in);
  { std::ofstream("p.ini") << t << (S.coin() ? "\n" : ""); }
  S.note("%zu sections, %zu keywords", in.size(), keys);
  INIFile f("p.ini");
  for(auto& [k, v] : want) {
    auto q = any_case(S, k);
    REQ(f.containsData(q), "%s not found in\n%s", q.c_str(), t.c_str());
    auto g = f.getData<std::string>(q);
    REQ(g == v, "%s = '%s', read as '%s' from\n%s", q.c_str(), v.c_str(), g.c_str(), t.c_str());
    double x = strtod(v.c_str(), nullptr);
    if(ints.count(k) || reals.count(k)) REQ(f.getData<double>(q) == x && f.getData<float>(q) == strtof(v.c_str(), nullptr), "%s read as %.17g", v.c_str(), f.getData<double>(q));
    if(ints.count(k)) {
      REQ(f.getData<int>(q) == (int)x && f.getData<int64_t>(q) == (int64_t)x, "%s as an integer", v.c_str());
      if(x >= 0) REQ(f.getData<size_t>(q) == (size_t)x, "%s as a size", v.c_str());
    }
    if(v == "TRUE" || v == "ON") REQ(f.getData<bool>(q), "%s as a flag", v.c_str());
    if(v == "FALSE" || v == "OFF") REQ(!f.getData<bool>(q), "%s as a flag", v.c_str());
  }
  for(auto& x : in) REQ(f.containsSection(x.first), "section %s not found", x.first.c_str());
  for(int i = 0; i < 5; ++i) {
    std::string q = word(2) + "." + word(3);
    if(!want.count(q)) REQ(!f.containsData(q), "%s found", q.c_str());
  }
  S.nontrivial(in.size() > 1 || keys > 4);
}

// recorded findings: the parser
static void ini_probe(const char* t) {
  { std::ofstream("k.ini") << t; }
  INIFile f("k.ini");
  REQ(f.containsData("CI.FCIDUMP") && f.containsData("CI.NALPHA"), "keyword not found");
  REQ(f.getData<std::string>("CI.FCIDUMP") == "in.fci", "value is '%s'", f.getData<std::string>("CI.FCIDUMP").c_str());
}
PBT(known_indented, 0, 0, "an indented keyword after another one") { ini_probe("[CI]\nNALPHA = 2\n  FCIDUMP = in.fci\n"); }
PBT(known_section, 0, 0, "a comment after a section name") { ini_probe("[CI] # the calculation\nNALPHA = 2\nFCIDUMP = in.fci\n"); }
#else
// recorded findings: output by several processes
static Prob fixed_problem() {
  Prob P;
  P.s.ni = 0; P.s.na = P.s.n = 4; P.ne = 2;
  P.I = Ints(4);
  pbt::Bulk b{11};
  P.I.fill([&](uint64_t i) { return 0.1 * b.sym(i); });
  for(int p = 0; p < 4; ++p) P.I.t(p, p) = -6 + 1.5 * p;
  return P;
}
PBT(known_fcidump_ranks, 0, 0, "integrals written by a run of several processes") {
  SubComm C(pbt::world().size, 0, false);
  auto P = fixed_problem();
  bool bad = false;
  for(int k = 0; k < 5; ++k) {
    Files Z(C);
    put(C, "[CI]\nFCIDUMP = in.fci\nNALPHA = 2\nNBETA = 2\nJOB = CI\nFCIDUMP_OUT = out.fci\n", P);
    drive(C, "in.ini");
    if(C.rank == 0) {
      std::ifstream i("out.fci");
      std::string l;
      int n = 0;
      while(std::getline(i, l)) ++n;
      bad |= n != 256 + 16 + 1;
    }
  }
  SOFT(!bad, "the file does not hold one line per integral");
}
PBT(known_determinants_ranks, 0, 0, "leading determinants printed by a run of several processes") {
  SubComm C(pbt::world().size, 0, false);
  auto P = fixed_problem();
  Files Z(C);
  put(C, "[CI]\nFCIDUMP = in.fci\nNALPHA = 2\nNBETA = 2\nJOB = CI\n[PRINT]\nDETERMINANTS = TRUE\nDETERMINANTS_THRES = 1e-10\n", P);
  auto r = drive(C, "in.ini");
  SOFT(!r.threw, "exception");
}
PBT(p_cas_energy, 250, 3000, "more than two determinants") { SubComm C = gen_comm(S, 2); cas(S, C); }
PBT(p_asci_energy, 250, 3000, "more than two determinants") { SubComm C = gen_comm(S, 2); asci(S, C); }
PBT(p_mcscf_energy, 120, 2000, "more than one determinant and orbitals that change") { SubComm C = gen_comm(S, 2); mcscf(S, C); }
PBT(p_refused, 60, 800, "always: a defective input") { SubComm C = gen_comm(S, 2); refuse(S, C); }
#endif
