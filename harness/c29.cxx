// C29: the stand-alone exact-diagonalisation program in attic/
#include "ref.hpp"
#include <cmz_ed/ed.h++>
#include <cmz_ed/bandlan.h++>
#include <cmz_ed/combins.h++>
#include <cmz_ed/eigsolver.h++>
using pbt::Src;
namespace ed = cmz::ed;
using ref::Det;
typedef std::vector<double> vecd;

static struct Mpi { Mpi() { MPI_Init(nullptr, nullptr); } ~Mpi() { MPI_Finalize(); } } mpi_;
struct Mute {  // the library prints its progress
  std::streambuf *o, *e;
  std::ostringstream s;
  Mute() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static Det det_of(const ed::slater_det& d, int n) { uint64_t m = (1ull << n) - 1; return {d.GetState() & m, (uint64_t)d.GetState() >> n}; }
static ed::slater_det sd(const Det& d, int n) { return ed::slater_det(d.a | (d.b << n), n, ref::popc(d.a), ref::popc(d.b)); }
static ed::intgrls::integrals make_ints(const ref::Ints& I) {
  ed::intgrls::integrals R(I.n, I.T, I.V);  // same index order: u[i + n (a + n (j + n b))] = (ia|jb)
  R.core_energy = I.core;
  return R;
}
// determinants in the order the library keeps them
static std::vector<Det> sorted(std::vector<Det> v, int n) {
  std::sort(v.begin(), v.end(), [&](const Det& x, const Det& y) { return (x.a | (x.b << n)) < (y.a | (y.b << n)); });
  return v;
}

PBT(combinations, 800, 8000, "at least 3 positions, neither none nor all set") {
  int n = S.edgy(0, 14), k = S.integer(0, n);
  S.note("n=%d k=%d", n, k);
  S.nontrivial(n >= 3 && k > 0 && k < n);
  auto got = ed::BuildCombs(n, k);
  auto want = ref::strings(n, k);
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  REQ(got == want, "%zu strings, want %zu", got.size(), want.size());
}

PBT(spaces, 400, 4000, "more than one determinant of each spin") {
  int n = S.integer(1, 7), na = S.integer(0, n), nb = S.integer(0, n);
  bool shift = S.coin(1, 3);
  int neff = shift ? S.integer(std::max(na, nb), n) : n;
  S.note("orbitals=%d effective=%d up=%d down=%d", n, neff, na, nb);
  auto got = shift ? ed::BuildShiftHilbertSpace(n, neff, na, nb) : ed::BuildFullHilbertSpace(n, na, nb);
  auto want = ref::hilbert(neff, na, nb);
  S.nontrivial(want.size() > 1 && na && nb);
  REQ(got.size() == want.size(), "%zu determinants, want %zu", got.size(), want.size());
  std::set<Det> w(want.begin(), want.end());
  for(auto& d : got) {
    REQ(w.count(det_of(d, n)), "determinant %s is not in the space", d.ToStr().c_str());
    REQ(d.ToStr() == "|" + ref::str(det_of(d, n), n) + ">" && d.ToStrBra() == "<" + ref::str(det_of(d, n), n) + "|", "printed as %s", d.ToStr().c_str());
  }
  // pairs that differ by one or two electrons, each once in each direction
  if(want.size() > 150) return;
  auto pairs = ed::GetSingDoublPairs(got);
  std::set<std::pair<size_t, size_t>> gp(pairs.begin(), pairs.end()), wp;
  std::vector<Det> v;
  for(auto& d : got) v.push_back(det_of(d, n));
  for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < v.size(); ++j) {
    int x = ref::popc(v[i].a ^ v[j].a) + ref::popc(v[i].b ^ v[j].b);
    if(i != j && x <= 4) wp.insert({i, j});
  }
  REQ(gp.size() == pairs.size(), "a pair is listed twice");
  REQ(gp == wp, "%zu pairs, want %zu", gp.size(), wp.size());
}

PBT(determinant, 6000, 80000, "the electron passes at least one other") {
  int n = S.integer(1, 14), na = S.integer(0, n), nb = S.integer(0, n);
  Det d{ref::gen_string(S, n, na), ref::gen_string(S, n, nb)};
  auto x = sd(d, n);
  int spin = S.below(2);
  uint64_t w = spin ? d.b : d.a;
  std::vector<uint64_t> oc, vi, ou, vu, od, vd;
  for(int i = 0; i < n; ++i) ((w >> i) & 1 ? oc : vi).push_back(i);
  S.note("%s n=%d spin=%d", ref::str(d, n).c_str(), n, spin);
  std::vector<uint64_t> o1, v1;
  x.GetOccsAndVirtsUp(ou, vu); x.GetOccsAndVirtsDo(od, vd);
  for(int s = 0; s < 2; ++s) {
    uint64_t q = s ? d.b : d.a;
    std::vector<uint64_t> a, b;
    for(int i = 0; i < n; ++i) { ((q >> i) & 1 ? a : b).push_back(i); REQ((s ? x.IsOccDo(i) : x.IsOccUp(i)) == (bool)((q >> i) & 1), "occupation of %d", i); }
    REQ((s ? od : ou) == a && (s ? vd : vu) == b, "occupied and empty orbitals of spin %d", s);
    REQ((s ? x.GetOccOrbsDo() : x.GetOccOrbsUp()) == a, "occupied orbitals of spin %d", s);
  }
  // a second determinant of the same space
  Det e{ref::gen_string(S, n, na), ref::gen_string(S, n, nb)};
  auto y = sd(e, n);
  REQ((int)x.CountExcUp(y) == ref::popc(d.a ^ e.a) && (int)x.CountExcDo(y) == ref::popc(d.b ^ e.b) && (int)x.CountExc(y) == ref::popc(d.a ^ e.a) + ref::popc(d.b ^ e.b), "differences to %s", ref::str(e, n).c_str());
  REQ((x < y) == ((d.a | d.b << n) < (e.a | e.b << n)) && (x == y) == (d == e), "order");
  if(d.a & ~e.a) REQ(x.GetFlippedOccIndxUp(y) == (uint64_t)__builtin_ctzll(d.a & ~e.a), "first changed up orbital");
  if(d.b & ~e.b) REQ(x.GetFlippedOccIndxDo(y) == (uint64_t)__builtin_ctzll(d.b & ~e.b), "first changed down orbital");
  if(!oc.empty() && !vi.empty()) {
    int o = S.pick(oc), v = S.pick(vi);
    Det z = d;
    int sg = ref::annihilate(z, o, spin);
    sg *= ref::create(z, v, spin);
    S.nontrivial(ref::popc(w & ((1ull << std::max(o, v)) - 1) & ~((2ull << std::min(o, v)) - 1)) > 0);
    double s1 = 0;
    auto r = spin ? x.GetSingExDoSt(v, o, s1) : x.GetSingExUpSt(v, o, s1);
    REQ(det_of(r, n) == z, "excitation %d -> %d gives %s", o, v, r.ToStr().c_str());
    REQ(s1 == sg, "sign of %d -> %d is %g, want %d", o, v, s1, sg);
    auto c = x;
    double s2 = spin ? c.SingleExcDo(v, o) : c.SingleExcUp(v, o);
    REQ(c == r && s2 == s1, "in-place excitation differs");
  }
  if(n <= 6) {
    auto l = x.GetSinglesAndDoubles();
    std::set<Det> got, want;
    for(auto& q : l) got.insert(det_of(q, n));
    for(auto& q : ref::hilbert(n, na, nb)) if(q != d && ref::popc(q.a ^ d.a) + ref::popc(q.b ^ d.b) <= 4) want.insert(q);
    REQ(got.size() == l.size() && got == want, "%zu singles and doubles (%zu distinct), want %zu", l.size(), got.size(), want.size());
  }
}

PBT(hamiltonian, 500, 6000, "more than 8 determinants and a nonzero two-electron part") {
  Mute m;
  int n = S.integer(1, 5), na = S.integer(0, n), nb = S.integer(0, n);
  auto I = ref::gen_ints(S, n);
  auto ints = make_ints(I);
  auto all = sorted(ref::hilbert(n, na, nb), n);
  std::vector<Det> ds;  // all of them, or some
  bool some = S.coin(1, 3);
  uint64_t bs = some ? S.seed() : 0;
  for(size_t i = 0; i < all.size(); ++i) if(!some || pbt::mix(bs + i) % 3) ds.push_back(all[i]);
  if(ds.empty()) ds.push_back(all[0]);
  S.note("n=%d up=%d down=%d determinants=%zu", n, na, nb, ds.size());
  ed::SetSlaterDets stts;
  for(auto& d : ds) stts.insert(sd(d, n));
  auto H = ref::hmat(I, ds);
  size_t N = ds.size();
  bool two = false;
  for(double v : I.V) two |= v != 0;
  S.nontrivial(N > 8 && two);
  ed::FermionHamil F(ints);
  REQ(F.GetNorbs() == (uint64_t)n, "orbitals");
  bool full = S.coin();
  ed::SpMatD M = full ? ed::GetHmat(&F, stts) : ed::GetHmat_FromPairs(&F, stts, F.GetHpairs(stts));
  REQ((size_t)M.rows() == N && (size_t)M.cols() == N, "matrix is %ld x %ld", (long)M.rows(), (long)M.cols());
  MatrixXd D(M);
  for(size_t j = 0; j < N; ++j) for(size_t i = 0; i < N; ++i) {
    REQ(std::fabs(D(i, j) - H[i + j * N]) < 2e-9, "%s element <%s|H|%s> = %.12g, want %.12g", full ? "full" : "pair", ref::str(ds[i], n).c_str(), ref::str(ds[j], n).c_str(), D(i, j), H[i + j * N]);
    if(N <= 20) { double g = F.GetHmatel(sd(ds[i], n), sd(ds[j], n)); REQ(std::fabs(g - H[i + j * N]) < 1e-11, "matrix element <%s|H|%s> = %.12g, want %.12g", ref::str(ds[i], n).c_str(), ref::str(ds[j], n).c_str(), g, H[i + j * N]); }
  }
}

static void check_rdms(Src& S, int n, const ref::Rdm& R, const vecd& D, const vecd& G, double tol) {
  REQ(D.size() == R.D.size() && G.size() == R.G.size(), "sizes %zu %zu", D.size(), G.size());
  for(size_t i = 0; i < D.size(); ++i) REQ(std::fabs(D[i] - R.D[i]) < tol, "one-particle element (%zu,%zu) = %.12g, want %.12g", i % n, i / n, D[i], R.D[i]);
  for(size_t i = 0; i < G.size(); ++i) REQ(std::fabs(G[i] - 0.5 * R.G[i]) < tol, "two-particle element %zu (i=%zu a=%zu j=%zu b=%zu) = %.12g, want %.12g", i, i % n, i / n % n, i / n / n % n, i / n / n / n, G[i], 0.5 * R.G[i]);
}

PBT(density, 400, 5000, "two electrons of one spin and more than four determinants") {
  Mute m;
  int n = S.integer(1, 5), na = S.integer(0, n), nb = S.integer(0, n);
  auto all = sorted(ref::hilbert(n, na, nb), n);
  uint64_t bs = S.seed();
  bool some = S.coin(1, 3);
  std::vector<Det> ds;
  for(size_t i = 0; i < all.size(); ++i) if(!some || pbt::mix(bs + i) % 3) ds.push_back(all[i]);
  if(ds.empty()) ds.push_back(all[0]);
  if(ds.size() > 60) ds.resize(60);
  pbt::Bulk b{bs};
  vecd c(ds.size());
  VectorXd v(ds.size());
  int mode = S.below(3);
  for(size_t i = 0; i < c.size(); ++i) v(i) = c[i] = mode == 0 ? (i == ds.size() - 1 || i == 0) : mode == 1 ? (double)((int)(b.u(i) % 5) - 2) : b.sym(i);
  S.note("n=%d up=%d down=%d determinants=%zu coefficients=%d", n, na, nb, ds.size(), mode);
  S.nontrivial((na > 1 || nb > 1) && ds.size() > 4);
  ed::SetSlaterDets stts;
  for(auto& d : ds) stts.insert(sd(d, n));
  auto R = ref::rdms(n, ds, c);
  ed::rdm::rdms got(n, v, stts);
  double nn = 1;
  for(auto x : c) nn += x * x;
  check_rdms(S, n, R, got.rdm1, got.rdm2, 1e-11 * nn);
  // access through spin-orbital indices, active part, rotation
  int i = S.below(2 * n), a = S.below(2 * n), j = S.below(2 * n), k = S.below(2 * n);
  bool s1 = i / n == a / n, s2 = j / n == k / n;
  size_t lin = i % n + n * (a % n + n * (j % n + n * (size_t)(k % n)));
  REQ(got.get(i, a) == (s1 ? got.rdm1[i % n + n * (a % n)] : 0), "get(%d,%d)", i, a);
  REQ(got.getPhys(i, j, a, k) == (s1 && s2 ? got.rdm2[lin] : 0) && got.getChem(i, a, j, k) == got.getPhys(i, j, a, k), "four-index access");
  auto C = ref::orthogonal(pbt::Bulk{S.seed()}, n);
  ed::eigMatD V(n, n);
  for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) V(p, q) = C[p + n * q];
  ref::Ints X(n);
  X.T = got.rdm1; X.V = got.rdm2;
  auto Y = ref::transform(X, C, n);
  auto rot = got;
  rot.rotate_orbitals(V);
  for(size_t q = 0; q < Y.T.size(); ++q) REQ(std::fabs(Y.T[q] - rot.rdm1[q]) < 1e-11 * nn * n, "rotated one-particle element %zu", q);
  for(size_t q = 0; q < Y.V.size(); ++q) REQ(std::fabs(Y.V[q] - rot.rdm2[q]) < 1e-10 * nn * n, "rotated two-particle element %zu", q);
  int ni = S.below(n + 1), nac = S.integer(0, n - ni);
  if(nac) {
    ed::intgrls::integrals ints(n);
    ints.UpdateActiveSpace(ni, nac, n - ni - nac);
    auto as = got.GetASrdms(ints);
    REQ((int)as.rdm1.size() == nac * nac, "active part has %zu elements", as.rdm1.size());
    for(int p = 0; p < nac; ++p) for(int q = 0; q < nac; ++q) {
      REQ(as.rdm1[p + nac * q] == got.rdm1[p + ni + n * (q + ni)], "active one-particle (%d,%d)", p, q);
      for(int r = 0; r < nac; ++r) for(int s = 0; s < nac; ++s) REQ(as.rdm2[p + nac * (q + nac * (r + nac * (size_t)s))] == got.rdm2[p + ni + n * (q + ni + n * (r + ni + n * (size_t)(s + ni)))], "active two-particle");
    }
  }
}

PBT(integrals, 1500, 15000, "two-electron integrals, listed once per symmetry class or in a chosen orientation") {
  Mute m;
  int n = S.integer(1, 4);
  auto I = ref::gen_ints(S, n);
  if(S.coin()) I.core = S.real(-50, 50);
  int lay = S.below(3);  // 0: every element, 1: once per class in any orientation, 2: canonical order
  S.note("n=%d layout=%d core=%g", n, lay, I.core);
  bool two = false;
  std::vector<std::string> lines;
  pbt::Bulk b{S.seed()};
  uint64_t c = 0;
  auto add = [&](int i, int a, int j, int k, double x) { lines.push_back(pbt::fmt("%4d %4d %4d %4d %24.16e", i, a, j, k, x)); };
  if(I.core != 0) add(0, 0, 0, 0, I.core);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
    if(lay && q > p) continue;
    bool f = lay == 1 && b.u(c++) % 2;
    if(I.t(p, q) != 0) add(f ? q + 1 : p + 1, f ? p + 1 : q + 1, 0, 0, I.t(p, q));
  }
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) {
    double x = I.v(p, q, r, s);
    if(x == 0) continue;
    if(lay && (q > p || s > r || r > p || (r == p && s > q))) continue;
    int e[4] = {p + 1, q + 1, r + 1, s + 1};
    if(lay == 1) { auto u = b.u(c++); if(u & 1) std::swap(e[0], e[1]); if(u & 2) std::swap(e[2], e[3]); if(u & 4) { std::swap(e[0], e[2]); std::swap(e[1], e[3]); } }
    two = true;
    add(e[0], e[1], e[2], e[3], x);
  }
  if(S.coin(1, 4)) for(int p = 0; p < n; ++p) lines.push_back(pbt::fmt("%4d    0    0    0  %g", p + 1, 0.5 * p + 1));  // orbital energies
  if(lay == 1) for(size_t i = 0; i + 1 < lines.size(); ++i) std::swap(lines[i], lines[i + b.u(7000 + i) % (lines.size() - i)]);
  S.nontrivial(two && lay);
  std::string f = "ints.dat";
  { std::ofstream o(f); for(auto& l : lines) o << l << "\n"; }
  ed::intgrls::integrals R(n, f);
  auto same = [&](const char* what, const ed::intgrls::integrals& R, double tol) {
    REQ(std::fabs(R.get_core_energy() - I.core) <= tol * (1 + std::fabs(I.core)), "%s: core energy %.17g", what, R.get_core_energy());
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) {
      REQ(std::fabs(R.get(p, q) - I.t(p, q)) <= tol, "%s: t(%d,%d) = %.17g, want %.17g", what, p, q, R.get(p, q), I.t(p, q));
      for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) REQ(std::fabs(R.getChem(p, q, r, s) - I.v(p, q, r, s)) <= tol && R.getPhys(p, r, q, s) == R.getChem(p, q, r, s), "%s: (%d%d|%d%d) = %.17g, want %.17g", what, p, q, r, s, R.getChem(p, q, r, s), I.v(p, q, r, s));
    }
  };
  same("read", R, 0);
  // spin-orbital access
  int i = S.below(2 * n), a = S.below(2 * n), j = S.below(2 * n), k = S.below(2 * n);
  bool s1 = i / n == a / n, s2 = j / n == k / n;
  REQ(R.get(i, a) == (s1 ? I.t(i % n, a % n) : 0) && R.getChem(i, a, j, k) == (s1 && s2 ? I.v(i % n, a % n, j % n, k % n) : 0), "spin-orbital access");
  ed::intgrls::integrals M(n, I.T, I.V);
  M.core_energy = I.core;
  (S.coin() ? R : M).write_FCIdump("out.dat");
  ed::intgrls::integrals B(n, std::string("out.dat"));
  same("written and read", B, 1e-9);
  auto C = ref::orthogonal(pbt::Bulk{S.seed()}, n);
  ed::eigMatD V(n, n);
  for(int q = 0; q < n; ++q) for(int p = 0; p < n; ++p) V(p, q) = C[p + n * q];
  auto Y = ref::transform(I, C, n);
  M.rotate_orbitals(V);
  double sc = 1;
  for(double x : I.V) sc = std::max(sc, std::fabs(x));
  for(size_t q = 0; q < Y.T.size(); ++q) REQ(std::fabs(Y.T[q] - M.t[q]) < 1e-11 * n * n * sc, "rotated t element %zu", q);
  for(size_t q = 0; q < Y.V.size(); ++q) REQ(std::fabs(Y.V[q] - M.u[q]) < 1e-11 * n * n * n * sc, "rotated u element %zu", q);
  remove("ints.dat"); remove("out.dat");
}

// weight of the uniform vector in the lowest level, and whether any lower level is nearly missed
struct Low { double E = 0, w = 0; bool clear = true; };
static Low lowest(const vecd& A, size_t N, const std::vector<double>& x) {
  vecd V = A;
  auto w = ref::eigh(V, (int)N);
  double nn = 0, nx = 1;
  for(double e : w) nx = std::max(nx, std::fabs(e));
  for(double t : x) nn += t * t;
  Low L;
  for(size_t k = 0; k < N;) {
    size_t l = k;
    double o2 = 0;
    for(; l < N && w[l] < w[k] + 1e-7 * nx; ++l) { double o = 0; for(size_t i = 0; i < N; ++i) o += V[i + l * N] * x[i]; o2 += o * o / nn; }
    if(o2 > 1e-3) { L.E = w[k]; L.w = o2; if(l < N && w[l] < w[k] + 1e-3 * nx) L.clear = false; return L; }
    if(o2 > 1e-22) L.clear = false;
    k = l;
  }
  L.clear = false;
  return L;
}

PBT(ground_state, 400, 5000, "more than 4 determinants and the start has a clear share of the ground state") {
  Mute m;
  int n = S.integer(1, 5), na = S.integer(0, n), nb = S.integer(0, n);
  auto I = ref::gen_ints(S, n);
  if(S.coin()) I.core = S.real(-30, 30);
  auto ds = sorted(ref::hilbert(n, na, nb), n);
  S.note("n=%d up=%d down=%d core=%g", n, na, nb, I.core);
  auto H = ref::hmat(I, ds);
  size_t N = ds.size();
  auto L = lowest(H, N, vecd(N, 1.));
  if(!L.clear) throw pbt::Discard{};
  S.nontrivial(N > 4);
  ed::Input_t in;
  in["norbs"] = std::to_string(n); in["nups"] = std::to_string(na); in["ndos"] = std::to_string(nb);
  double tol = 1e-8;
  if(S.coin()) { tol = S.oneof({1e-6, 1e-9, 1e-11}); in["E0tol"] = pbt::fmt("%g", tol); }
  if(S.coin(1, 4)) in["print"] = S.coin() ? "T" : "F";
  auto ints = make_ints(I);
  double E = 0;
  vecd D, G;
  ed::RunED(in, ints, E, D, G);
  double sc = 1;
  for(double x : H) sc = std::max(sc, std::fabs(x));
  REQ(E > L.E + I.core - 1e-10 * sc * N, "energy %.12g below the exact %.12g", E, L.E + I.core);
  REQ(E < L.E + I.core + 300 * tol + 1e-7 * sc, "energy %.12g above the exact %.12g", E, L.E + I.core);
  double e = I.core, tr = 0;
  REQ(D.size() == I.T.size() && G.size() == I.V.size(), "density sizes");
  for(size_t i = 0; i < D.size(); ++i) e += D[i] * I.T[i];
  for(size_t i = 0; i < G.size(); ++i) e += G[i] * I.V[i];
  for(int p = 0; p < n; ++p) tr += D[p + n * p];
  REQ(std::fabs(tr - na - nb) < 1e-6 * (na + nb + 1), "trace of the one-particle density is %.12g", tr);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) REQ(std::fabs(D[p + n * q] - D[q + n * p]) < 1e-12, "one-particle density not symmetric");
  double t2 = 0;
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) t2 += 2 * G[p + n * (p + n * (q + n * (size_t)q))];
  REQ(std::fabs(t2 - (na + nb) * (na + nb - 1.)) < 1e-6 * (na + nb + 1) * (na + nb + 1), "trace of the two-particle density is %.12g", t2);
  REQ(std::fabs(e - E) < 1e-6 * sc * (na + nb + 1), "densities give the energy %.12g, the program %.12g", e, E);
}

static MatrixXd sym(Src& S, int N, vecd& A) {
  pbt::Bulk b{S.seed()};
  int mode = S.below(4);
  S.note("N=%d matrix=%d", N, mode);
  A.assign(N * N, 0.);
  for(int i = 0; i < N; ++i) for(int j = 0; j <= i; ++j) {
    double x = mode == 0 ? (i == j ? i + 1. : i == j + 1 ? -1. : 0) : mode == 1 ? b.sym(i * N + j) : mode == 2 ? (double)((int)(b.u(i * N + j) % 5) - 2) : (i == j ? 3. * i : b.u(i * N + j) % 4 ? 0. : b.sym(i * N + j));
    A[i + j * N] = A[j + i * N] = x;
  }
  return Eigen::Map<MatrixXd>(A.data(), N, N);
}
PBT(lanczos, 2500, 30000, "more than 3 rows and more than two steps") {
  Mute m;
  int N = S.edgy(1, 30);
  vecd A;
  MatrixXd M = sym(S, N, A);
  pbt::Bulk b{S.seed() + (1ull << 40)};
  VectorXd x(N);
  vecd xv(N);
  for(int i = 0; i < N; ++i) x(i) = xv[i] = b.sym(i);
  double nx = x.norm();
  if(nx < 1e-3) throw pbt::Discard{};
  bool sparse = S.coin();
  ed::SpMatD Sp = M.sparseView();
  ed::eigMatD Md = M;
  ed::eigMatDOp Od(Md);
  ed::SpMatDOp Os(Sp);
  double an = 1;
  for(int i = 0; i < N; ++i) { double r = 0; for(int j = 0; j < N; ++j) r += std::fabs(A[i + j * N]); an = std::max(an, r); }
  int what = S.below(4);
  S.note("routine=%d sparse=%d", what, (int)sparse);
  ed::Input_t in;
  if(what <= 1) {
    int k = S.integer(1, std::min(N, 8));
    S.nontrivial(N > 3 && k > 2);
    vecd al, be;
    if(sparse) ed::MyLanczos(x, Os, k, al, be, 1e-6); else ed::MyLanczos(x, Od, k, al, be, 1e-6);
    REQ((int)al.size() == k && (int)be.size() == k + 1, "%zu alphas, %zu betas", al.size(), be.size());
    REQ(std::fabs(be[0] - nx) < 1e-12 * nx, "norm of the start is %.12g, want %.12g", be[0], nx);
    // reference: fully orthogonalised Krylov basis
    std::vector<VectorXd> q{x / nx};
    VectorXd z = VectorXd::Zero(N), lc(k);
    for(int i = 0; i < k; ++i) lc(i) = b.sym(500 + i);
    int steps = 0;
    for(int i = 0; i < k; ++i) {
      VectorXd r = M * q[i];
      double a = q[i].dot(r);
      REQ(std::fabs(al[i] - a) < 1e-8 * an, "alpha %d = %.12g, want %.12g", i, al[i], a);
      for(int p = 0; p < 2; ++p) for(auto& u : q) r -= u.dot(r) * u;
      REQ(std::fabs(be[i + 1] - r.norm()) < 1e-8 * an, "beta %d = %.12g, want %.12g", i + 1, be[i + 1], r.norm());
      z += lc(i) * q[i];
      ++steps;
      if(r.norm() < 1e-2) break;
      q.push_back(r / r.norm());
    }
    if(what == 1 && steps == k) {
      VectorXd bp, p = lc;
      if(sparse) ed::MyLanczos_BackProj(x, Os, k, p, bp); else ed::MyLanczos_BackProj(x, Od, k, p, bp);
      REQ((bp - z).norm() < 1e-7 * an, "back projection is off by %.3g", (bp - z).norm());
    }
    return;
  }
  auto L = lowest(A, N, xv);
  if(!L.clear) throw pbt::Discard{};
  S.nontrivial(N > 3);
  double tol = 1e-8;
  if(S.coin()) { tol = S.oneof({1e-6, 1e-10}); in["E0tol"] = pbt::fmt("%g", tol); }
  if(S.coin(1, 4)) { double t = S.oneof({1e-6, 1e-10}); in["Lantol"] = pbt::fmt("%g", t); }
  double E = 0;
  VectorXd v;
  if(what == 2) {
    VectorXd c;
    int64_t it = sparse ? ed::GetGSEn_Lanczos(x, Os, E, c, in) : ed::GetGSEn_Lanczos(x, Od, E, c, in);
    REQ(it >= 1 && c.size() == it && std::fabs(c.norm() - 1) < 1e-9, "%ld coefficients of %ld steps, norm %.12g", (long)c.size(), (long)it, c.norm());
  } else {
    if(sparse) ed::GetGSEnVec_Lanczos(x, Os, E, v, in); else ed::GetGSEnVec_Lanczos(x, Od, E, v, in);
    REQ(v.size() == N && std::fabs(v.norm() - 1) < 1e-5, "vector of %ld elements, norm %.12g", (long)v.size(), v.norm());
    double rq = v.dot(M * v) / v.squaredNorm();
    REQ(std::fabs(rq - E) < 1e-6 * an, "vector's energy %.12g, reported %.12g", rq, E);
  }
  REQ(E > L.E - 1e-10 * an, "value %.12g below the lowest eigenvalue %.12g", E, L.E);
  REQ(E < L.E + 300 * tol + 1e-6 * an, "value %.12g, lowest eigenvalue %.12g", E, L.E);
}

PBT(eigensystems, 2500, 30000, "more than 3 rows") {
  Mute m;
  int which = S.below(5), N = S.integer(which == 2 || which == 3 ? 2 : 1, 14);
  S.note("routine=%d", which);
  S.nontrivial(N > 3);
  vecd A;
  MatrixXd M = sym(S, N, A);
  pbt::Bulk b{S.seed() + (1ull << 40)};
  double an = 1;
  for(double x : A) an = std::max(an, std::fabs(x) * N);
  auto pairs = [&](const MatrixXd& Mx, const vecd& w, auto col, bool up) {
    REQ((int)w.size() == N, "%zu values", w.size());
    for(int k = 0; k < N; ++k) {
      VectorXd v(N);
      for(int i = 0; i < N; ++i) v(i) = col(i, k);
      REQ((Mx * v - w[k] * v).norm() < 1e-11 * an * N, "pair %d is no eigenpair (%.3g)", k, (Mx * v - w[k] * v).norm());
      for(int l = 0; l <= k; ++l) { double o = 0; for(int i = 0; i < N; ++i) o += v(i) * col(i, l); REQ(std::fabs(o - (k == l)) < 1e-10, "vectors %d,%d overlap %.12g", k, l, o); }
      if(k) REQ(up ? w[k] >= w[k - 1] : w[k] <= w[k - 1], "order of values");
    }
  };
  if(which == 0) {
    vecd al(N), be(N);
    MatrixXd T = MatrixXd::Zero(N, N);
    for(int i = 0; i < N; ++i) { T(i, i) = al[i] = 2 * b.sym(i); be[i] = b.sym(100 + i); if(S.coin(1, 8)) be[i] = 0; if(i) T(i, i - 1) = T(i - 1, i) = be[i]; }
    if(S.coin()) be.push_back(b.sym(999));
    VectorXd w;
    ed::eigMatD V;
    ed::Hste_v(al, be, w, V);
    pairs(T, vecd(w.data(), w.data() + w.size()), [&](int i, int k) { return V(i, k); }, true);
  } else if(which == 1) {
    VectorXd w;
    ed::eigMatD V;
    ed::Hsyev(M, w, V);
    pairs(M, vecd(w.data(), w.data() + w.size()), [&](int i, int k) { return V(i, k); }, false);
  } else if(which == 2 || which == 3) {
    int bw = which == 3 ? S.integer(1, N - 1) : N - 1;
    std::vector<vecd> a(N, vecd(N)), V;
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) a[i][j] = std::abs(i - j) <= bw ? A[i + j * N] : 0;
    MatrixXd B(N, N);
    for(int i = 0; i < N; ++i) for(int j = 0; j < N; ++j) B(i, j) = a[i][j];
    vecd w;
    REQ(which == 3 ? ed::GetEigsysBand(a, bw, w, V) : ed::GetEigsys(a, w, V), "reported failure");
    pairs(B, w, [&](int i, int k) { return V[k][i]; }, true);
  } else {
    int K = S.integer(1, N);
    bool tr = S.coin();
    std::vector<vecd> Q(tr ? K : N, vecd(tr ? N : K)), R;
    for(auto& r : Q) for(auto& x : r) x = 0;
    MatrixXd X(N, K);
    for(int i = 0; i < N; ++i) for(int k = 0; k < K; ++k) { X(i, k) = b.sym(300 + i * 20 + k) + (i == k); (tr ? Q[k][i] : Q[i][k]) = X(i, k); }
    REQ(tr ? ed::QRdecomp_tr(Q, R) : ed::QRdecomp(Q, R), "reported failure");
    MatrixXd q(N, K), r(K, K);
    for(int i = 0; i < N; ++i) for(int k = 0; k < K; ++k) q(i, k) = tr ? Q[k][i] : Q[i][k];
    for(int i = 0; i < K; ++i) for(int k = 0; k < K; ++k) { r(i, k) = R[i][k]; if(k < i) REQ(R[i][k] == 0, "R is not triangular"); }
    REQ((q * r - X).norm() < 1e-12 * N * N, "Q R differs by %.3g", (q * r - X).norm());
    REQ((q.transpose() * q - MatrixXd::Identity(K, K)).norm() < 1e-12 * N, "Q not orthonormal");
  }
}

// <v_k| (z -+ (H - E0))^-1 |v_l> by the band Lanczos recurrence run to exhaustion
PBT(resolvent, 500, 6000, "at least two vectors and more than 4 rows") {
  Mute m;
  int N = S.integer(2, 10), nv = S.integer(1, std::min(3, N - 1));
  vecd A;
  MatrixXd M = sym(S, N, A);
  pbt::Bulk b{S.seed() + (1ull << 40)};
  std::vector<vecd> v(nv, vecd(N));
  MatrixXd X(N, nv);
  for(int k = 0; k < nv; ++k) for(int i = 0; i < N; ++i) X(i, k) = v[k][i] = b.sym(k * 50 + i) + (i == k);
  std::vector<int32_t> ri{0}, ci;
  vecd nz;
  for(int i = 0; i < N; ++i) { for(int j = 0; j < N; ++j) if(A[i + j * N] != 0) { ci.push_back(j); nz.push_back(A[i + j * N]); } ri.push_back(ci.size()); }
  sparsexx::csr_matrix<double, int32_t> C(N, N, nz.size(), 0);
  C.rowptr() = ri; C.colind() = ci; C.nzval() = nz;
  sparsexx::dist_sparse_matrix<sparsexx::csr_matrix<double, int32_t>> H(MPI_COMM_SELF, C);
  bool part = S.coin();
  double E0 = S.real(-2, 2);
  S.note("vectors=%d particle=%d E0=%g", nv, (int)part, E0);
  // the Krylov space must be exhausted without a near breakdown in between
  {
    std::vector<VectorXd> q;
    std::vector<VectorXd> blk;
    for(int k = 0; k < nv; ++k) blk.push_back(X.col(k));
    double small = 1;
    while(!blk.empty() && (int)q.size() < N) {
      std::vector<VectorXd> nx;
      for(auto& w : blk) {
        double l0 = w.norm();
        for(int p = 0; p < 2; ++p) for(auto& u : q) w -= u.dot(w) * u;
        if((int)q.size() == N) break;
        small = std::min(small, w.norm() / (l0 + 1e-300));
        if(w.norm() < 1e-3) break;
        q.push_back(w / w.norm());
        nx.push_back(M * q.back());
      }
      blk = nx;
      if(small < 1e-3) break;
    }
    if(small < 1e-2 || (int)q.size() < N) throw pbt::Discard{};
  }
  S.nontrivial(nv > 1 && N > 4);
  std::vector<std::complex<double>> ws;
  for(int i = 0, k = S.integer(1, 4); i < k; ++i) ws.push_back({3 * b.sym(900 + i), 0.2 + b.unit(950 + i)});
  std::vector<std::vector<std::vector<std::complex<double>>>> res;
  ed::BandResolvent(H, v, ws, res, N, E0, part, false);
  REQ(res.size() == ws.size(), "%zu frequencies", res.size());
  double xn = X.squaredNorm() + 1;
  for(size_t w = 0; w < ws.size(); ++w) {
    Eigen::MatrixXcd Z = (part ? -1. : 1.) * (M - E0 * MatrixXd::Identity(N, N)).cast<std::complex<double>>();
    for(int i = 0; i < N; ++i) Z(i, i) += ws[w];
    Eigen::MatrixXcd G = X.transpose().cast<std::complex<double>>() * Z.partialPivLu().solve(Eigen::MatrixXcd(X.cast<std::complex<double>>()));
    for(int k = 0; k < nv; ++k) for(int l = 0; l < nv; ++l) REQ(std::abs(res[w][k][l] - G(k, l)) < 1e-6 * xn, "element (%d,%d) at frequency %zu = (%.9g,%.9g), want (%.9g,%.9g)", k, l, w, res[w][k][l].real(), res[w][k][l].imag(), G(k, l).real(), G(k, l).imag());
  }
}
