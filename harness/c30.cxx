// C30: Green's functions of a configuration-interaction wave function (attic/inc/dbwy/gf.h++)
#include "ref.hpp"
#include <dbwy/asci_body.hpp>
using pbt::Src;
using ref::Det;
typedef std::vector<double> vecd;
typedef std::complex<double> cplx;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace ed = cmz::ed;
static struct Mpi { Mpi() { MPI_Init(nullptr, nullptr); } ~Mpi() { MPI_Finalize(); } } mpi_;
struct Mute {
  std::streambuf *o, *e;
  std::ostringstream s;
  Mute() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }

// a wave function: distinct determinants with coefficients
struct Wave { std::vector<Det> d; vecd c; };
static Wave gen_wave(Src& S, int n, int na, int nb, size_t cap) {
  auto full = ref::hilbert(n, na, nb);
  pbt::Bulk b{S.seed()};
  Wave w;
  if(S.coin(1, 3)) w.d = full;
  else {
    // some of them, in any order
    size_t k = 1 + S.below(std::min(cap, full.size()));
    std::set<size_t> take;
    for(uint64_t i = 0; take.size() < k; ++i) take.insert((size_t)(b.unit(i) * full.size()) % full.size());
    for(size_t i : take) w.d.push_back(full[i]);
    for(size_t i = w.d.size(); i-- > 1;) std::swap(w.d[i], w.d[(size_t)(b.unit(5000 + i) * (i + 1)) % (i + 1)]);
  }
  double nn = 0;
  bool small = S.coin(1, 3);
  for(size_t i = 0; i < w.d.size(); ++i) {
    double x = b.sym(9000 + i);
    if(small && b.unit(20000 + i) < 0.5) x *= 1e-3;
    w.c.push_back(x);
    nn += x * x;
  }
  for(double& x : w.c) x /= std::sqrt(nn);
  return w;
}
// a^+_p |d> or a_p |d>; sign 0 when it vanishes
static int step(Det& d, int p, int spin, bool part) { return part ? ref::create(d, p, spin) : ref::annihilate(d, p, spin); }

// determinants of the layered space
struct Space { std::vector<int> act; double seed = 0; int layers = 0; };
static std::set<Det> base_layer(const Wave& w, int orb, int sp, bool part) {
  std::set<Det> r;
  for(auto d : w.d) if(step(d, orb, sp, part)) r.insert(d);
  return r;
}
static std::set<Det> layered(const Wave& w, int orb, int sp, bool part, const Space& q) {
  std::set<Det> all = base_layer(w, orb, sp, part), front;
  for(size_t i = 0; i < w.d.size(); ++i) { Det d = w.d[i]; if(step(d, orb, sp, part) && std::fabs(w.c[i]) >= q.seed) front.insert(d); }
  for(int l = 0; l < q.layers; ++l) {
    std::set<Det> nx;
    for(auto& d : front) for(int s = 0; s < 2; ++s) for(int i : q.act) for(int a : q.act) {
      Det y = d;
      if(i == a || !ref::annihilate(y, i, s) || !ref::create(y, a, s)) continue;
      if(all.insert(y).second) nx.insert(y);
    }
    front = nx;
  }
  return all;
}
template <size_t N>
static std::vector<std::bitset<N>> bits(const std::vector<Det>& v) { std::vector<std::bitset<N>> r; for(auto& d : v) r.push_back(ref::to_bits<N>(d)); return r; }

template <size_t N>
static void basis_(Src& S, int lim) {
  Mute m;
  int n = S.integer(1, 5), na = S.integer(0, n), nb = S.integer(0, n);
  // the orbitals may sit high in the string
  int off = S.coin(1, 3) ? S.integer(0, lim - n) : 0, tot = n + off;
  Wave w = gen_wave(S, n, na, nb, 30);
  for(auto& d : w.d) { d.a <<= off; d.b <<= off; }
  int orb = off + S.integer(0, n - 1), sp = S.below(2);
  bool part = S.coin();
  Space q;
  q.layers = S.below(4);
  double thr = S.coin() ? 0. : S.real(0, 0.3);
  q.seed = S.coin() ? 0. : S.real(0, 0.5);
  vecd occ;
  for(int i = 0; i < tot; ++i) {
    double o = i < off ? 1. : S.coin(1, 4) ? (S.coin() ? 0. : 1.) : S.real(0, 1);
    occ.push_back(o);
    if(i >= off && o >= thr && o <= 1 - thr) q.act.push_back(i);
    if(i < off && thr == 0) q.act.push_back(i);
  }
  if(off && thr == 0) for(int i = 0; i < off; ++i) { occ[i] = 2.; }
  if(off && thr == 0) q.act.erase(q.act.begin(), q.act.begin() + off);
  size_t trunc = S.coin(1, 3) ? S.integer(1, 60) : 100000;
  auto L0 = base_layer(w, orb, sp, part), want = layered(w, orb, sp, part, q);
  S.note("bits=%zu n=%d+%d up=%d down=%d orbital=%d spin=%d particle=%d layers=%d seed=%g active=%zu trunc=%zu determinants=%zu", N, n, off, na, nb, orb, sp, (int)part, q.layers, q.seed, q.act.size(), trunc, w.d.size());
  S.nontrivial(!L0.empty() && want.size() > L0.size());
  ed::Input_t in;
  in["norbs"] = std::to_string(tot); in["trunc_size"] = std::to_string(trunc); in["tot_SD"] = std::to_string(q.layers);
  in["GFseedThresh"] = num(q.seed); in["asThresh"] = num(thr);
  std::vector<std::bitset<N>> got(S.coin() ? 3 : 0, std::bitset<N>(7));
  VectorXd c = Eigen::Map<const VectorXd>(w.c.data(), w.c.size());
  ed::get_GF_basis_AS_1El<N>(orb, sp == 0, part, c, bits<N>(w.d), got, occ, in);
  std::set<Det> g;
  for(auto& x : got) {
    Det d = ref::from_bits<N>(x);
    REQ(ref::to_bits<N>(d) == x && want.count(d), "%s is not reachable", ref::str(d, tot).c_str());
    REQ(g.insert(d).second, "%s is listed twice", ref::str(d, tot).c_str());
  }
  for(auto& d : L0) REQ(g.count(d), "%s is missing although the operator reaches it", ref::str(d, tot).c_str());
  if(want.size() <= trunc) REQ(g.size() == want.size(), "%zu determinants, want %zu", g.size(), want.size());
  else {
    // growth goes on until the limit is passed, and not beyond one determinant's excitations
    size_t a = q.act.size(), one = a * a;
    REQ(g.size() >= std::min(trunc, want.size()) && g.size() <= std::max(L0.size(), trunc + 1 + one), "%zu determinants with a limit of %zu", g.size(), trunc);
  }
}
PBT(basis, 3000, 30000, "the layers add determinants") { switch(S.below(4)) { case 0: basis_<32>(S, 16); break; case 1: basis_<64>(S, 32); break; case 2: basis_<128>(S, 64); break; default: basis_<256>(S, 64); } }

template <size_t N>
static void vectors_(Src& S, int lim) {
  Mute m;
  int n = S.integer(1, 5), na = S.integer(0, n), nb = S.integer(0, n);
  int off = S.coin(1, 3) ? S.integer(0, lim - n) : 0, tot = n + off;
  Wave w = gen_wave(S, n, na, nb, 30);
  // electrons below the window count in the signs
  uint64_t la = 0, lb = 0;
  pbt::Bulk b{S.seed() + (1ull << 33)};
  if(off) { la = (uint64_t)(b.unit(1) * 1e18); lb = (uint64_t)(b.unit(2) * 1e18); if(off < 64) { la &= (1ull << off) - 1; lb &= (1ull << off) - 1; } }
  for(auto& d : w.d) { d.a = d.a << off | la; d.b = d.b << off | lb; }
  bool part = S.coin();
  std::vector<int> orbs;
  std::vector<bool> up;
  int k = S.integer(1, 4);
  for(int i = 0; i < k; ++i) { orbs.push_back(off + S.integer(0, n - 1)); up.push_back(S.coin()); }
  // target list: some reached determinants and some others, any order
  std::set<Det> T;
  for(int i = 0; i < k; ++i) for(auto& d : base_layer(w, orbs[i], !up[i], part)) if(!S.coin(1, 8)) T.insert(d);
  for(auto& d : w.d) { Det y = d; if(step(y, off + S.integer(0, n - 1), S.below(2), part) && S.coin()) T.insert(y); }
  std::vector<Det> tl(T.begin(), T.end());
  for(size_t i = tl.size(); i-- > 1;) std::swap(tl[i], tl[(size_t)(b.unit(100 + i) * (i + 1)) % (i + 1)]);
  std::vector<vecd> want;
  std::vector<int> gone;
  for(int i = 0; i < k; ++i) {
    vecd v(tl.size(), 0.);
    double nn = 0;
    for(size_t j = 0; j < w.d.size(); ++j) {
      Det d = w.d[j];
      int s = step(d, orbs[i], !up[i], part);
      auto it = std::find(tl.begin(), tl.end(), d);
      if(s && it != tl.end()) v[it - tl.begin()] += s * w.c[j];
    }
    for(double x : v) nn += x * x;
    if(nn > 1e-9 && nn < 1e-5) throw pbt::Discard{};
    if(nn < 1e-7) gone.push_back(i); else want.push_back(v);
  }
  S.note("bits=%zu n=%d+%d up=%d down=%d particle=%d operators=%d vanishing=%zu targets=%zu", N, n, off, na, nb, (int)part, k, gone.size(), tl.size());
  S.nontrivial(!want.empty() && tl.size() > 2);
  std::vector<int> del(S.below(3), 9);
  VectorXd c = Eigen::Map<const VectorXd>(w.c.data(), w.c.size());
  auto got = ed::BuildWfn4Lanczos<N>(c, orbs, up, bits<N>(w.d), bits<N>(tl), part, del);
  REQ(del == gone, "%zu operators dropped, want %zu", del.size(), gone.size());
  REQ(got.size() == want.size(), "%zu vectors, want %zu", got.size(), want.size());
  for(size_t i = 0; i < got.size(); ++i) {
    REQ(got[i].size() == tl.size(), "vector %zu has %zu entries", i, got[i].size());
    for(size_t j = 0; j < tl.size(); ++j) REQ(std::fabs(got[i][j] - want[i][j]) < 1e-14, "vector %zu, %s: %.17g, want %.17g", i, ref::str(tl[j], tot).c_str(), got[i][j], want[i][j]);
  }
}
PBT(vectors, 3000, 30000, "some vector does not vanish and more than two targets") { switch(S.below(4)) { case 0: vectors_<32>(S, 16); break; case 1: vectors_<64>(S, 32); break; case 2: vectors_<128>(S, 64); break; default: vectors_<256>(S, 64); } }

static ref::Ints real_ints(Src& S, int n) {
  ref::Ints I(n);
  pbt::Bulk b{S.seed()};
  I.fill([&](uint64_t c) { return 0.25 * b.sym(c); });
  for(int p = 0; p < n; ++p) I.t(p, p) = -2. + 0.8 * p + 0.2 * b.sym(700000 + p);
  return I;
}
// <v| (z -+ (H - E0))^-1 |v> on the Krylov space of k steps
static bool krylov(const MatrixXd& H, const VectorXd& v, int k, std::vector<VectorXd>& Q) {
  Q.clear();
  VectorXd w = v;
  for(int i = 0; i < k; ++i) {
    double l0 = i ? H.norm() : 1.;
    for(int p = 0; p < 2; ++p) for(auto& u : Q) w -= u.dot(w) * u;
    double r = w.norm();
    if(i && r < 1e-9 * l0) break;
    if(i && r < 1e-2 * l0) return false;  // neither exhausted nor well separated
    Q.push_back(w / r);
    w = H * Q.back();
  }
  return true;
}
static cplx project(const MatrixXd& H, const VectorXd& l, const VectorXd& r, const std::vector<VectorXd>& Q, cplx z, double E0, bool part) {
  int k = Q.size();
  Eigen::MatrixXcd Z(k, k);
  Eigen::VectorXcd a(k), c(k);
  for(int i = 0; i < k; ++i) {
    for(int j = 0; j < k; ++j) Z(i, j) = (part ? -1. : 1.) * (Q[i].dot(H * Q[j]) - (i == j ? E0 : 0.));
    Z(i, i) += z;
    a(i) = Q[i].dot(l);
    c(i) = Q[i].dot(r);
  }
  return (a.transpose() * Z.partialPivLu().solve(c))(0);
}
// the space, vectors and matrix RunGFCalc works with
struct Model {
  std::vector<Det> d;
  std::vector<VectorXd> v;
  std::vector<int> kept, gone;
  MatrixXd H;
};
struct Job { std::vector<int> ob, oc; std::vector<bool> ub, uc; Space q; };
static Model model(const ref::Ints& I, const Wave& w, const Job& J, bool part) {
  Model m;
  std::set<Det> all;
  for(size_t i = 0; i < J.ob.size(); ++i) for(auto& d : layered(w, J.ob[i], !J.ub[i], part, J.q)) all.insert(d);
  m.d.assign(all.begin(), all.end());
  size_t M = m.d.size();
  auto A = ref::hmat(I, m.d);
  m.H = MatrixXd::Zero(M, M);
  for(size_t i = 0; i < M; ++i) for(size_t j = 0; j < M; ++j) {
    double x = A[i + j * M];
    // the threshold applies to the element's magnitude
    if(std::fabs(x) > 1e-6) m.H(i, j) = x;
  }
  std::map<Det, size_t> pos;
  for(size_t i = 0; i < M; ++i) pos[m.d[i]] = i;
  for(size_t k = 0; k < J.oc.size(); ++k) {
    VectorXd v = VectorXd::Zero(M);
    for(size_t j = 0; j < w.d.size(); ++j) { Det d = w.d[j]; int s = step(d, J.oc[k], !J.uc[k], part); if(s && pos.count(d)) v(pos[d]) += s * w.c[j]; }
    double nn = v.squaredNorm();
    if(nn > 1e-9 && nn < 1e-5) throw pbt::Discard{};
    if(nn < 1e-7) m.gone.push_back(k); else { m.kept.push_back(k); m.v.push_back(v); }
  }
  return m;
}
typedef std::vector<std::vector<std::vector<cplx>>> GF_t;
// expected matrix per frequency, by the selected method
static GF_t expected(const Model& m, const std::vector<cplx>& ws, double E0, bool part, bool band, int its) {
  int nv = m.v.size(), M = m.d.size(), k = std::min(its, M);
  GF_t G(ws.size(), std::vector<std::vector<cplx>>(nv, std::vector<cplx>(nv)));
  if(band) {
    // exact when the block Krylov space is exhausted in k steps and nothing is nearly dependent
    std::vector<VectorXd> Q, blk = m.v;
    if(k < M) throw pbt::Discard{};
    while(!blk.empty() && (int)Q.size() < M) {
      std::vector<VectorXd> nx;
      for(auto& w : blk) {
        double l0 = w.norm();
        for(int p = 0; p < 2; ++p) for(auto& u : Q) w -= u.dot(w) * u;
        if((int)Q.size() == M) break;
        if(w.norm() < 1e-2 * l0) throw pbt::Discard{};
        Q.push_back(w / w.norm());
        nx.push_back(m.H * Q.back());
      }
      blk = nx;
    }
    if((int)Q.size() < M) throw pbt::Discard{};
    for(size_t w = 0; w < ws.size(); ++w) for(int i = 0; i < nv; ++i) for(int j = 0; j < nv; ++j) G[w][i][j] = project(m.H, m.v[i], m.v[j], Q, ws[w], E0, part);
    return G;
  }
  auto one = [&](const VectorXd& v, std::vector<cplx>& out) {
    std::vector<VectorXd> Q;
    if(v.squaredNorm() < 1e-4 || !krylov(m.H, v, k, Q)) throw pbt::Discard{};
    out.clear();
    for(auto z : ws) out.push_back(project(m.H, v, v, Q, z, E0, part));
  };
  std::vector<cplx> a, b;
  for(int i = 0; i < nv; ++i) {
    one(m.v[i], a);
    for(size_t w = 0; w < ws.size(); ++w) G[w][i][i] = a[w];
    for(int j = i + 1; j < nv; ++j) {
      one(m.v[i] + m.v[j], a);
      one(m.v[i] - m.v[j], b);
      for(size_t w = 0; w < ws.size(); ++w) G[w][i][j] = G[w][j][i] = 0.25 * (a[w] - b[w]);
    }
  }
  return G;
}
static void fill(ed::Input_t& in, const Job& J, int n, double thr, bool band, int its) {
  auto ints = [](const std::vector<int>& v) { std::string s; for(int x : v) s += std::to_string(x) + " "; return s; };
  auto ups = [](const std::vector<bool>& v) { std::string s; for(bool x : v) s += x ? "T " : "F "; return s; };
  in["norbs"] = std::to_string(n); in["trunc_size"] = "100000"; in["tot_SD"] = std::to_string(J.q.layers);
  in["GFseedThresh"] = num(J.q.seed); in["asThresh"] = num(thr); in["use_bandLan"] = band ? "T" : "F";
  in["GF_orbs_basis"] = ints(J.ob); in["GF_orbs_comp"] = ints(J.oc); in["is_up_basis"] = ups(J.ub); in["is_up_comp"] = ups(J.uc);
  if(its < 1000) in["nLanIts"] = std::to_string(its);
}
static Job gen_job(Src& S, int n) {
  Job J;
  int k = S.integer(1, 3);
  // distinct spin orbitals
  std::vector<std::pair<int, bool>> so;
  for(int i = 0; i < n; ++i) { so.push_back({i, true}); so.push_back({i, false}); }
  bool mixed = S.coin(1, 3), u = S.coin();
  if(!mixed) so.erase(std::remove_if(so.begin(), so.end(), [&](auto& x) { return x.second != u; }), so.end());
  for(int i = 0; i < k && !so.empty(); ++i) { size_t j = S.below(so.size()); J.oc.push_back(so[j].first); J.uc.push_back(so[j].second); so.erase(so.begin() + j); }
  J.ob = J.oc; J.ub = J.uc;
  // the space may be built from other orbitals as well
  if(S.coin(1, 3)) { J.ob.push_back(S.below(n)); J.ub.push_back(mixed ? S.coin() : u); }
  J.q.layers = S.below(3);
  J.q.seed = S.coin(2, 3) ? 0. : S.real(0, 0.4);
  return J;
}
static void compare(const GF_t& got, const GF_t& want, double scale, const char* what) {
  REQ(got.size() == want.size(), "%s: %zu frequencies, want %zu", what, got.size(), want.size());
  for(size_t w = 0; w < want.size(); ++w) {
    REQ(got[w].size() == want[w].size(), "%s: %zu rows, want %zu", what, got[w].size(), want[w].size());
    for(size_t i = 0; i < want[w].size(); ++i) for(size_t j = 0; j < want[w].size(); ++j)
      REQ(std::abs(got[w][i][j] - want[w][i][j]) < scale, "%s: element (%zu,%zu) at frequency %zu is (%.9g,%.9g), want (%.9g,%.9g)", what, i, j, w, got[w][i][j].real(), got[w][i][j].imag(), want[w][i][j].real(), want[w][i][j].imag());
  }
}
static void read_file(const std::string& f, const std::vector<cplx>& ws, const GF_t& G, size_t nv) {
  std::ifstream i(f);
  REQ((bool)i, "%s not written", f.c_str());
  std::string line;
  size_t w = 0;
  while(std::getline(i, line)) {
    std::istringstream s(line);
    double a, b;
    std::vector<cplx> row;
    while(s >> a >> b) row.push_back({a, b});
    REQ(w < ws.size() && row.size() == 1 + nv * nv && row[0] == ws[w], "%s line %zu has %zu values", f.c_str(), w, row.size());
    for(size_t k = 0; k < nv * nv; ++k) REQ(row[1 + k] == (G[w].empty() ? cplx(0) : G[w][k / nv][k % nv]), "%s line %zu value %zu differs", f.c_str(), w, k);
    ++w;
  }
  REQ(w == ws.size(), "%s has %zu lines", f.c_str(), w);
  i.close();
  remove(f.c_str());
}
static void read_files(const Job& J, const std::vector<int>& gone, const std::vector<cplx>& ws, const GF_t& G, bool part) {
  std::string t = part ? "ADD" : "SUB";
  if(J.oc.size() == 1) { std::string k = std::to_string(J.oc[0] + 1); read_file("LanGF_" + t + "_" + k + "_" + k + ".dat", ws, G, 1); return; }
  read_file("LanGFMatrix_" + t + ".dat", ws, G, J.oc.size() - gone.size());
  std::string f = "GFMatrix_OrbitalIndices_" + t + ".dat";
  std::ifstream i(f);
  std::vector<int> l, want;
  for(int x; i >> x;) l.push_back(x);
  for(size_t k = 0; k < J.oc.size(); ++k) if(std::find(gone.begin(), gone.end(), (int)k) == gone.end()) want.push_back(J.oc[k]);
  REQ(l == want, "%s lists %zu orbitals, want %zu", f.c_str(), l.size(), want.size());
  remove(f.c_str());
}

// one sector from a given wave function
PBT(sector, 3000, 30000, "at least two operators and more than three determinants") {
  Mute mute;
  constexpr size_t N = 64;
  int n = S.integer(2, 4), na = S.integer(0, n), nb = S.integer(0, n);
  auto I = real_ints(S, n);
  Wave w = gen_wave(S, n, na, nb, 12);
  Job J = gen_job(S, n);
  double thr = 0;
  vecd occ;
  if(S.coin(1, 4)) thr = S.real(0, 0.4);
  for(int i = 0; i < n; ++i) { occ.push_back(S.real(0, 1)); if(occ[i] >= thr && occ[i] <= 1 - thr) J.q.act.push_back(i); }
  bool part = S.coin(), band = S.coin(), wr = S.coin(1, 3);
  int its = S.coin(2, 3) ? 1000 : S.integer(2, 12);
  double E0 = S.real(-3, 3);
  std::vector<cplx> ws;
  pbt::Bulk b{S.seed() + 77};
  for(int i = 0, k = S.integer(1, 4); i < k; ++i) ws.push_back({4 * b.sym(i), 0.3 + b.unit(50 + i)});
  Model m = model(I, w, J, part);
  S.note("n=%d up=%d down=%d particle=%d band=%d steps=%d operators=%zu vanishing=%zu layers=%d space=%zu", n, na, nb, (int)part, (int)band, its, J.oc.size(), m.gone.size(), J.q.layers, m.d.size());
  if(m.d.empty() || (band && (m.v.empty() || m.v.size() > m.d.size()))) throw pbt::Discard{};
  auto want = expected(m, ws, E0, part, band, its);
  S.nontrivial(m.v.size() > 1 && m.d.size() > 3);
  ed::Input_t in;
  fill(in, J, n, thr, band, its);
  if(wr) in["writeGF"] = "T";
  dbwy::SDBuildHamiltonianGenerator<N> g((size_t)n, I.V.data(), I.T.data());
  VectorXd c = Eigen::Map<const VectorXd>(w.c.data(), w.c.size());
  GF_t G;
  ed::RunGFCalc<N>(G, c, g, bits<N>(w.d), E0, part, ws, occ, in);
  compare(G, want, 2e-5, band ? "band Lanczos" : "Lanczos");
  if(wr) read_files(J, m.gone, ws, G, part);
}

static void dump(const ref::Ints& I, const std::string& f) {
  std::ofstream o(f);
  o.precision(17);
  int n = I.n;
  o << "0 0 0 0 " << I.core << "\n";
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) if(I.t(p, q) != 0) o << p + 1 << " " << q + 1 << " 0 0 " << I.t(p, q) << "\n";
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) for(int r = 0; r <= p; ++r) for(int s = 0; s <= (r == p ? q : r); ++s)
    if(I.v(p, q, r, s) != 0) o << p + 1 << " " << q + 1 << " " << r + 1 << " " << s + 1 << " " << I.v(p, q, r, s) << "\n";
}
// the complete program from an integral file: both sectors of the exact ground state
PBT(program, 300, 3000, "at least two operators") {
  Mute mute;
  constexpr size_t N = 64;
  int n = S.integer(2, 4), na = S.integer(1, n - 1), nb = S.integer(1, n - 1);
  auto I = real_ints(S, n);
  I.core = S.real(-20, 20);
  Job J = gen_job(S, n);
  J.q.seed = 0;
  double thr = S.coin(1, 4) ? S.real(0, 0.4) : 0.;
  // a ground state's symmetry makes block Krylov vectors dependent: the simple recurrence only
  const bool band = false;
  auto full = ref::hilbert(n, na, nb);
  auto A = ref::hmat(I, full);
  auto lev = ref::eigh(A, (int)full.size());
  if(lev.size() > 1 && lev[1] - lev[0] < 1e-2) throw pbt::Discard{};
  Wave w;
  w.d = full;
  w.c.assign(A.begin(), A.begin() + full.size());
  auto R = ref::rdms(n, full, w.c);
  for(int i = 0; i < n; ++i) {
    double o = R.D[i * (n + 1)] / 2;
    if(thr > 0 && (std::fabs(o - thr) < 1e-3 || std::fabs(o - 1 + thr) < 1e-3)) throw pbt::Discard{};
    if(o >= thr && o <= 1 - thr) J.q.act.push_back(i);
  }
  int nw = S.integer(1, 5);
  double lo = S.real(-4, 0), hi = S.real(0.1, 4), eta = S.real(0.3, 1);
  S.note("n=%d up=%d down=%d operators=%zu layers=%d frequencies=%d", n, na, nb, J.oc.size(), J.q.layers, nw);
  S.nontrivial(J.oc.size() > 1);
  GF_t want(nw, std::vector<std::vector<cplx>>(J.oc.size(), std::vector<cplx>(J.oc.size())));
  for(int part = 0; part < 2; ++part) {
    Model m = model(I, w, J, part);
    if(!m.gone.empty() || (band && m.v.size() > m.d.size())) throw pbt::Discard{};
    for(int k = 0; k < nw; ++k) {
      size_t M = m.d.size();
      Eigen::MatrixXcd Z = (part ? -1. : 1.) * (m.H - lev[0] * MatrixXd::Identity(M, M)).cast<cplx>();
      for(size_t i = 0; i < M; ++i) Z(i, i) += cplx(k ? lo + k * (hi - lo) / (nw - 1) : lo, eta);
      auto lu = Z.partialPivLu();
      for(size_t j = 0; j < m.v.size(); ++j) { Eigen::VectorXcd x = lu.solve(Eigen::VectorXcd(m.v[j].cast<cplx>())); for(size_t i = 0; i < m.v.size(); ++i) want[k][i][j] += (m.v[i].cast<cplx>().transpose() * x)(0); }
    }
  }
  dump(I, "ints.dat");
  ed::Input_t in;
  auto put = [&](const char* k, int v) { in[k] = std::to_string(v); };
  fill(in, J, n, thr, band, 1000);
  put("nups", na); put("ndos", nb); put("ntdets_max", full.size() + 5); put("ncdets_max", 200); put("niter_max", S.below(3)); put("coeff_thresh", 0); put("nws", nw);
  in["quiet"] = "T"; in["real_ints"] = "T"; in["fcidump_file"] = "ints.dat";
  in["wmin"] = num(lo); in["wmax"] = num(hi); in["broad"] = num(eta);
  auto [E, G] = dbwy::run_asci_w_GF<N>(in);
  remove("ints.dat");
  REQ(std::fabs(E - lev[0] - I.core) < 1e-7, "energy %.12g, exact %.12g", E, lev[0] + I.core);
  compare(G, want, 1e-4, "Lanczos");
}
