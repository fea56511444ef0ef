// C31: the prototype determinant engine in attic/inc/dbwy
#include "ref.hpp"
#include <dbwy/asci_body.hpp>
using pbt::Src;
using ref::Det;
typedef std::vector<double> vecd;
static struct Mpi { Mpi() { MPI_Init(nullptr, nullptr); } ~Mpi() { MPI_Finalize(); } } mpi_;
struct Mute {
  std::streambuf *o, *e;
  std::ostringstream s;
  Mute() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// run F<N> for one of the widths
#define WIDTHS(W, F, ...) (W == 0 ? F<32>(__VA_ARGS__) : W == 1 ? F<64>(__VA_ARGS__) : W == 2 ? F<128>(__VA_ARGS__) : F<256>(__VA_ARGS__))
static int maxorb(int W) { return W == 0 ? 16 : W == 1 ? 32 : 64; }  // reference determinants have 64 orbitals at most
static Det gen_det(Src& S, int n, int lim) {
  int na = S.integer(0, std::min(n, lim)), nb = S.integer(0, std::min(n, lim));
  if(S.coin(1, 6)) { na = n - na; nb = n - nb; }
  return {ref::gen_string(S, n, na), ref::gen_string(S, n, nb)};
}

// determinants reachable by one or two replacements inside `orbs`, from the definition
static std::set<Det> reach(const Det& d, const std::vector<int>& orbs, int k) {
  std::set<Det> s1, s2;
  auto singles = [&](const Det& x, std::set<Det>& out) {
    for(int sp = 0; sp < 2; ++sp) for(int i : orbs) for(int a : orbs) {
      Det y = x;
      if(!ref::annihilate(y, i, sp) || i == a) continue;
      if(!ref::create(y, a, sp)) continue;
      out.insert(y);
    }
  };
  singles(d, s1);
  if(k == 1) return s1;
  for(auto& x : s1) singles(x, s2);
  s2.erase(d);
  for(auto& x : s1) s2.erase(x);
  return s2;
}
template <size_t N>
static void same_set(const char* what, const std::vector<std::bitset<N>>& got, const std::set<Det>& want, int n) {
  std::set<Det> g;
  for(auto& x : got) {
    Det d = ref::from_bits<N>(x);
    REQ(ref::to_bits<N>(d) == x && want.count(d), "%s: %s is not one of them", what, ref::str(d, n).c_str());
    REQ(g.insert(d).second, "%s: %s is listed twice", what, ref::str(d, n).c_str());
  }
  REQ(g.size() == want.size(), "%s: %zu, want %zu", what, g.size(), want.size());
}
template <size_t N>
static void excitations_(Src& S, int n) {
  Det d = gen_det(S, n, n > 14 ? 4 : n);
  auto s = ref::to_bits<N>(d);
  std::vector<int> all(n);
  for(int i = 0; i < n; ++i) all[i] = i;
  bool act = S.coin();
  std::vector<int> orbs;
  for(int i = 0; i < n; ++i) if(!act || S.coin(2, 3)) orbs.push_back(i);
  S.note("bits=%zu n=%d %s active=%zu", N, n, ref::str(d, n).c_str(), orbs.size());
  S.nontrivial(d.a && d.b && ref::popc(d.a) < n);
  auto w1 = reach(d, orbs, 1);
  bool dbl = n <= 9;
  auto w2 = dbl ? reach(d, orbs, 2) : std::set<Det>();
  std::vector<std::bitset<N>> s1, s2;
  if(act) {
    std::vector<uint32_t> as(orbs.begin(), orbs.end());
    dbwy::generate_singles_spin_as<N>(n, s, s1, as);
    same_set<N>("active singles", s1, w1, n);
    if(dbl) { dbwy::generate_singles_doubles_spin_as<N>(n, s, s1, s2, as); same_set<N>("active singles with doubles", s1, w1, n); same_set<N>("active doubles", s2, w2, n); }
  } else {
    dbwy::generate_singles_spin<N>(n, s, s1);
    same_set<N>("singles", s1, w1, n);
    auto with = w1;
    with.insert(d);
    same_set<N>("CIS space", dbwy::generate_cis_hilbert_space<N>(n, s), with, n);
    if(dbl) {
      dbwy::generate_singles_doubles_spin<N>(n, s, s1, s2);
      same_set<N>("singles with doubles", s1, w1, n);
      same_set<N>("doubles", s2, w2, n);
      with.insert(w2.begin(), w2.end());
      same_set<N>("CISD space", dbwy::generate_cisd_hilbert_space<N>(n, s), with, n);
    }
  }
  // what is left after two electrons are taken away
  std::vector<std::bitset<N>> rs;
  dbwy::generate_residues<N>(s, rs);
  std::set<Det> wr;
  for(int p = 0; p < 2 * n; ++p) for(int q = 0; q < p; ++q) { Det x = d; if(ref::annihilate(x, p % n, p / n) && ref::annihilate(x, q % n, q / n)) wr.insert(x); }
  same_set<N>("residues", rs, wr, n);
  // occupied and empty orbitals
  std::bitset<N / 2> al;
  for(int i = 0; i < n; ++i) al[i] = (d.a >> i) & 1;
  std::vector<uint32_t> oc, vi, wo, wv;
  dbwy::bitset_to_occ_vir<N / 2>(n, al, oc, vi);
  for(int i = 0; i < n; ++i) (al[i] ? wo : wv).push_back(i);
  REQ(oc == wo && vi == wv, "occupied and empty orbitals");
  REQ(dbwy::bits_to_indices(s).size() == s.count(), "indices of the set bits");
}
PBT(excitations, 3000, 30000, "electrons of both spins and an empty orbital") {
  int W = S.below(4), n = S.coin(1, 4) ? S.edgy(1, maxorb(W)) : S.integer(1, 7);
  WIDTHS(W, excitations_, S, n);
}

template <size_t N>
static void spaces_(Src& S, int n) {
  int na = S.integer(0, n), nb = S.integer(0, n);
  S.note("bits=%zu n=%d up=%d down=%d", N, n, na, nb);
  S.nontrivial(na && nb && na < n);
  auto w = ref::hilbert(n, na, nb);
  std::set<Det> ws(w.begin(), w.end());
  same_set<N>("full space", dbwy::generate_full_hilbert_space<N>(n, na, nb), ws, n);
  same_set<N>("full space", dbwy::build_hilbert_space<N>(n, na, nb), ws, n);
  Det hf{na ? ~0ull >> (64 - na) : 0, nb ? ~0ull >> (64 - nb) : 0};
  REQ(ref::from_bits<N>(dbwy::canonical_hf_determinant<N>(na, nb)) == hf, "lowest determinant");
  vecd e(n);
  pbt::Bulk b{S.seed()};
  for(int i = 0; i < n; ++i) e[i] = b.sym(i);
  auto h = ref::from_bits<N>(dbwy::canonical_hf_determinant<N>(na, nb, e));
  REQ(ref::popc(h.a) == na && ref::popc(h.b) == nb, "electrons in %s", ref::str(h, n).c_str());
  for(int s = 0; s < 2; ++s) for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) { uint64_t x = s ? h.b : h.a; REQ(!((x >> i) & 1) || ((x >> j) & 1) || e[i] < e[j], "orbital %d is filled before %d", i, j); }
}
PBT(spaces, 500, 5000, "electrons of both spins and an empty orbital") { int W = S.below(4), n = S.integer(1, 6); WIDTHS(W, spaces_, S, n); }

template <size_t N>
static void strings_(Src& S, int n) {
  Det d = gen_det(S, n, n), e = gen_det(S, n, n);
  S.note("bits=%zu n=%d %s", N, n, ref::str(d, n).c_str());
  S.nontrivial((d.a & d.b) && (d.a ^ d.b));
  auto s = ref::to_bits<N>(d), t = ref::to_bits<N>(e);
  auto str = dbwy::to_canonical_string(s);
  REQ(str == ref::str(d, n) + std::string(N / 2 - n, '0'), "written as %s", str.c_str());
  REQ(dbwy::from_canonical_string<N>(str) == s && dbwy::from_canonical_string<N>(ref::str(d, n)) == s, "read back");
  // numeric order, beta word most significant
  bool less = d.b != e.b ? d.b < e.b : d.a < e.a;
  REQ(dbwy::bitset_less(s, t) == less && dbwy::bitset_less_comparator<N>()(s, t) == less && !dbwy::bitset_less(s, s), "order of %s and %s", ref::str(d, n).c_str(), ref::str(e, n).c_str());
  if(s.any()) { unsigned f = 0; while(!s[f]) ++f; REQ(dbwy::ffs(s) == f + 1, "lowest set bit is %u, want %u", dbwy::ffs(s), f + 1); }
  auto lo = dbwy::truncate_bitset<N / 2>(s), hi = dbwy::truncate_bitset<N / 2>(s >> (N / 2));
  REQ((dbwy::expand_bitset<N>(lo) | (dbwy::expand_bitset<N>(hi) << (N / 2))) == s, "halves do not make up the whole");
  int k = S.integer(0, (int)N);
  REQ(dbwy::full_mask<N>(k).count() == (size_t)k && (k == 0 || dbwy::full_mask<N>(k)[k - 1]), "mask of %d bits", k);
}
PBT(strings, 6000, 60000, "doubly and singly occupied orbitals") { int W = S.below(4), n = S.edgy(1, maxorb(W)); WIDTHS(W, strings_, S, n); }

template <size_t N>
static void signs_(Src& S, int n) {
  int k = S.integer(1, n - 1);
  uint64_t w = ref::gen_string(S, n, k);
  Det d{w, 0};
  std::vector<int> oc, vi;
  for(int i = 0; i < n; ++i) ((w >> i) & 1 ? oc : vi).push_back(i);
  int o = S.pick(oc), v = S.pick(vi);
  Det x = d;
  int sg = ref::annihilate(x, o, 0);
  sg *= ref::create(x, v, 0);
  S.note("bits=%zu n=%d %s %d->%d", N, n, ref::str(d, n).c_str(), o, v);
  S.nontrivial(std::abs(o - v) > 1);
  auto bits = [](const Det& z) { std::bitset<N> r; for(int i = 0; i < 64 && i < (int)N; ++i) r[i] = (z.a >> i) & 1; return r; };
  auto ket = bits(d), bra = bits(x);
  REQ(dbwy::single_excitation_sign(ket, v, o) == sg, "sign of %d -> %d", o, v);
  auto [o1, v1, s1] = dbwy::single_excitation_sign_indices(bra, ket, bra ^ ket);
  REQ((int)o1 == o && (int)v1 == v && s1 == sg, "single: %d -> %d sign %g, want %d -> %d sign %d", (int)o1, (int)v1, s1, o, v, sg);
  if(oc.size() < 2 || vi.size() < 2) return;
  oc.erase(std::find(oc.begin(), oc.end(), o));
  vi.erase(std::find(vi.begin(), vi.end(), v));
  int p = S.pick(oc), q = S.pick(vi);
  Det y = d;
  int oa = std::min(o, p), ob = std::max(o, p), va = std::min(v, q), vb = std::max(v, q);
  int s2 = ref::annihilate(y, oa, 0);
  s2 *= ref::create(y, va, 0);
  s2 *= ref::annihilate(y, ob, 0);
  s2 *= ref::create(y, vb, 0);
  bra = bits(y);
  auto [a1, b1, a2, b2, z] = dbwy::doubles_sign_indices(bra, ket, bra ^ ket);
  REQ((int)a1 == oa && (int)b1 == va && (int)a2 == ob && (int)b2 == vb && z == s2, "double: %d->%d %d->%d sign %g, want %d->%d %d->%d sign %d", (int)a1, (int)b1, (int)a2, (int)b2, z, oa, va, ob, vb, s2);
  REQ(dbwy::doubles_sign(bra, ket, bra ^ ket) == s2, "sign of the double");
}
PBT(signs, 6000, 60000, "the electron passes at least one orbital") { int W = S.below(4), n = S.edgy(2, std::min(64, maxorb(W))); WIDTHS(W, signs_, S, n); }

template <size_t N>
static std::unique_ptr<dbwy::HamiltonianGenerator<N>> make_gen(bool sd, ref::Ints& I) {
  if(sd) return std::make_unique<dbwy::SDBuildHamiltonianGenerator<N>>((size_t)I.n, I.V.data(), I.T.data());
  return std::make_unique<dbwy::DoubleLoopHamiltonianGenerator<N>>((size_t)I.n, I.V.data(), I.T.data());
}
// doubles restricted to the first nimp orbitals
template <class G> struct Imp : G {
  size_t nimp = 0;
  using G::G;
  size_t GetNimp() const override { return nimp; }
};
template <size_t N, template <size_t> class G>
static std::unique_ptr<dbwy::HamiltonianGenerator<N>> make_imp(size_t nimp, ref::Ints& I) {
  auto g = std::make_unique<Imp<G<N>>>((size_t)I.n, I.V.data(), I.T.data());
  g->nimp = nimp;
  return g;
}
// a determinant at a small distance from d
static Det near(Src& S, Det d, int n) {
  for(int k = S.integer(0, 3); k > 0; --k) {
    int sp = S.below(2);
    uint64_t& w = sp ? d.b : d.a;
    std::vector<int> oc, vi;
    for(int i = 0; i < n; ++i) ((w >> i) & 1 ? oc : vi).push_back(i);
    if(oc.empty() || vi.empty()) continue;
    w ^= 1ull << S.pick(oc);
    w ^= 1ull << S.pick(vi);
  }
  return d;
}
template <size_t N>
static void elements_(Src& S, int n) {
  auto I = ref::gen_ints(S, n);
  Det d = gen_det(S, n, n), e = near(S, d, n);
  bool sd = S.coin();
  S.note("bits=%zu n=%d %s %s", N, n, ref::str(d, n).c_str(), ref::str(e, n).c_str());
  S.nontrivial(d != e);
  auto g = make_gen<N>(sd, I);
  double want = ref::elem(I, e, d), got = g->matrix_element(ref::to_bits<N>(e), ref::to_bits<N>(d));
  REQ(std::fabs(got - want) < 1e-11 * n * n, "<%s|H|%s> = %.12g, want %.12g", ref::str(e, n).c_str(), ref::str(d, n).c_str(), got, want);
  // diagonal of an excited determinant from that of the original
  double h = ref::diag(I, d), tol = 1e-10 * n * n;
  std::vector<uint32_t> oc[2], vi[2];
  for(int i = 0; i < n; ++i) { ((d.a >> i) & 1 ? oc : vi)[0].push_back(i); ((d.b >> i) & 1 ? oc : vi)[1].push_back(i); }
  int sp = S.below(2), op = 1 - sp;
  auto flip = [&](Det x, int s, int i, int a) { (s ? x.b : x.a) ^= (1ull << i) ^ (1ull << a); return x; };
  if(oc[sp].empty() || vi[sp].empty()) return;
  int i = S.pick(oc[sp]), a = S.pick(vi[sp]);
  auto x = flip(d, sp, i, a);
  double f = g->fast_diag_single(oc[sp], oc[op], i, a, h);
  REQ(std::fabs(f - ref::diag(I, x)) < tol, "diagonal of the single %d->%d = %.12g, want %.12g", i, a, f, ref::diag(I, x));
  if(oc[sp].size() > 1 && vi[sp].size() > 1) {
    auto o2 = oc[sp], v2 = vi[sp];
    o2.erase(std::find(o2.begin(), o2.end(), (uint32_t)i));
    v2.erase(std::find(v2.begin(), v2.end(), (uint32_t)a));
    int j = S.pick(o2), b = S.pick(v2);
    f = g->fast_diag_ss_double(oc[sp], oc[op], i, j, a, b, h);
    double w = ref::diag(I, flip(x, sp, j, b));
    REQ(std::fabs(f - w) < tol, "diagonal of the same-spin double %d%d->%d%d = %.12g, want %.12g", i, j, a, b, f, w);
  }
  if(!oc[1].empty() && !vi[1].empty() && !oc[0].empty() && !vi[0].empty()) {
    int iu = S.pick(oc[0]), au = S.pick(vi[0]), id = S.pick(oc[1]), ad = S.pick(vi[1]);
    f = g->fast_diag_os_double(oc[0], oc[1], iu, id, au, ad, h);
    double w = ref::diag(I, flip(flip(d, 0, iu, au), 1, id, ad));
    REQ(std::fabs(f - w) < tol, "diagonal of the opposite-spin double = %.12g, want %.12g", f, w);
  }
}
PBT(elements, 4000, 40000, "two different determinants") { int W = S.below(4), n = S.coin(1, 8) ? S.edgy(1, std::min(16, maxorb(W))) : S.integer(1, 6); WIDTHS(W, elements_, S, n); }

// distinct determinants of one electron count, shuffled; of a large space, those near one of them
static std::vector<Det> some_dets(Src& S, int n, int na, int nb, size_t cap) {
  auto v = ref::hilbert(n, na, nb);
  pbt::Bulk b{S.seed()};
  if(n > 5) {
    Det o = v[b.u(1ull << 40) % v.size()];
    v.erase(std::remove_if(v.begin(), v.end(), [&](const Det& d) { return ref::popc(d.a ^ o.a) + ref::popc(d.b ^ o.b) > 4; }), v.end());
  }
  for(size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + b.u(i) % (v.size() - i)]);
  v.resize(S.integer(1, (int)std::min(cap, v.size())));
  return v;
}
template <size_t N, class Idx>
static void check_csr(const sparsexx::csr_matrix<double, Idx>& M, const ref::Ints& I, const std::vector<Det>& bra, const std::vector<Det>& ket, double thr, const char* what) {
  REQ((size_t)M.m() == bra.size() && (size_t)M.n() == ket.size() && M.rowptr().size() == bra.size() + 1, "%s: matrix is %zu x %zu", what, (size_t)M.m(), (size_t)M.n());
  REQ(M.rowptr()[0] == 0 && (size_t)M.rowptr().back() == M.colind().size() && M.colind().size() == M.nzval().size(), "%s: row pointers", what);
  for(size_t i = 0; i < bra.size(); ++i) {
    std::map<Idx, double> row;
    for(auto k = M.rowptr()[i]; k < M.rowptr()[i + 1]; ++k) {
      REQ(M.colind()[k] >= 0 && (size_t)M.colind()[k] < ket.size(), "%s: column out of range", what);
      REQ(row.insert({M.colind()[k], M.nzval()[k]}).second, "%s: element (%zu,%zu) is stored twice", what, i, (size_t)M.colind()[k]);
    }
    for(size_t j = 0; j < ket.size(); ++j) {
      double w = ref::elem(I, bra[i], ket[j]);
      auto it = row.find(j);
      double g = it == row.end() ? 0 : it->second;
      REQ(std::fabs(g - w) < 1e-10 + (it == row.end() ? thr : 0), "%s: element (%zu,%zu) is %.12g, want %.12g", what, i, j, g, w);
      REQ(it == row.end() || std::fabs(g) > thr, "%s: element (%zu,%zu) = %.3g is below the threshold %.3g", what, i, j, g, thr);
    }
  }
}
template <size_t N>
static void blocks_(Src& S, int n) {
  Mute m;
  auto I = ref::gen_ints(S, n);
  int na = S.integer(0, n), nb = S.integer(0, n);
  if(na + nb == 0) na = 1;  // an empty word marks a determinant that is left out
  bool sd = S.coin(), rect = S.coin(), wide = S.coin(), js = false;
  if(sd && S.coin(1, 3)) {  // no integrals that move two electrons
    js = true;
    for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) if(p != q && r != s) I.v(p, q, r, s) = 0;
  }
  auto ds = some_dets(S, n, na, nb, 40), ks = rect ? some_dets(S, n, na, nb, 40) : ds;
  double thr = S.oneof({1e-12, 1e-6, 0.1, 1.0});
  S.note("bits=%zu n=%d up=%d down=%d bra=%zu ket=%zu sd=%d rect=%d js=%d thr=%g", N, n, na, nb, ds.size(), ks.size(), (int)sd, (int)rect, (int)js, thr);
  S.nontrivial(ds.size() > 3 && ks.size() > 3);
  auto g = make_gen<N>(sd, I);
  g->SetJustSingles(js);
  REQ(g->GetJustSingles() == js, "singles-only mode");
  std::vector<std::bitset<N>> b, k;
  for(auto& d : ds) b.push_back(ref::to_bits<N>(d));
  for(auto& d : ks) k.push_back(ref::to_bits<N>(d));
  if(wide) check_csr<N, int64_t>(g->template make_csr_hamiltonian_block<int64_t>(b.begin(), b.end(), k.begin(), k.end(), thr), I, ds, ks, thr, "block");
  else check_csr<N, int32_t>(g->template make_csr_hamiltonian_block<int32_t>(b.begin(), b.end(), k.begin(), k.end(), thr), I, ds, ks, thr, "block");
  if(!rect) {
    auto H = dbwy::make_dist_csr_hamiltonian<int32_t>(MPI_COMM_SELF, b.begin(), b.end(), *g, thr);
    check_csr<N, int32_t>(*H.diagonal_tile_ptr(), I, ds, ks, thr, "distributed");
  } else {  // the part of a distributed matrix that another process owns: own determinants are blanked
    auto z = k;
    std::vector<Det> kd = ks;
    size_t lo = S.below(z.size()), hi = S.integer((int)lo, (int)z.size());
    for(size_t i = lo; i < hi; ++i) z[i] = 0;
    auto M = g->template make_csr_hamiltonian_block<int32_t>(b.begin(), b.end(), z.begin(), z.end(), thr);
    for(size_t i = 0; i < b.size(); ++i) for(auto q = M.rowptr()[i]; q < M.rowptr()[i + 1]; ++q) {
      size_t j = M.colind()[q];
      REQ(j < ks.size() && (j < lo || j >= hi), "element in the blanked column %zu", j);
      double w = ref::elem(I, ds[i], ks[j]);
      REQ(std::fabs(M.nzval()[q] - w) < 1e-10, "blanked block: element (%zu,%zu) is %.12g, want %.12g", i, j, M.nzval()[q], w);
    }
    size_t cnt = 0;
    bool close = false;
    for(size_t i = 0; i < ds.size(); ++i) for(size_t j = 0; j < ks.size(); ++j) if(j < lo || j >= hi) { double w = std::fabs(ref::elem(I, ds[i], ks[j])); cnt += w > thr; close |= std::fabs(w - thr) < 1e-9 && w > 0; }
    REQ(close || M.nzval().size() == cnt, "blanked block has %zu elements, want %zu", M.nzval().size(), cnt);
  }
}
PBT(blocks, 1500, 15000, "at least four determinants on each side") { int W = S.below(4), n = S.coin(1, 20) ? S.integer(6, 8) : S.integer(1, 5); WIDTHS(W, blocks_, S, n); }

template <size_t N>
static void densities_(Src& S, int n) {
  Mute m;
  auto I = ref::gen_ints(S, n);
  int na = S.integer(0, n), nb = S.integer(0, n);
  if(na + nb == 0) nb = 1;
  bool sd = S.coin();
  auto ds = some_dets(S, n, na, nb, 40);
  pbt::Bulk b{S.seed()};
  vecd c(ds.size());
  double nn = 0, scale = S.coin(1, 3) ? 1e-5 : 1;  // densities are quadratic: no coefficient is too small to count
  for(size_t i = 0; i < c.size(); ++i) { c[i] = scale * b.sym(i); nn += c[i] * c[i]; }
  S.note("bits=%zu n=%d up=%d down=%d determinants=%zu sd=%d scale=%g", N, n, na, nb, ds.size(), (int)sd, scale);
  S.nontrivial(ds.size() > 3);
  auto g = make_gen<N>(sd, I);
  std::vector<std::bitset<N>> v;
  for(auto& d : ds) v.push_back(ref::to_bits<N>(d));
  auto R = ref::rdms(n, ds, c);
  vecd D1(n * n), D2(n * n), G((size_t)n * n * n * n);
  g->form_rdms(v.begin(), v.end(), v.begin(), v.end(), c.data(), D1.data());
  g->form_rdms(v.begin(), v.end(), v.begin(), v.end(), c.data(), D2.data(), G.data());
  for(int i = 0; i < n * n; ++i) {
    REQ(std::fabs(D1[i] - R.D[i]) < 1e-12 * nn, "one-particle element %d = %.12g, want %.12g", i, D1[i], R.D[i]);
    REQ(std::fabs(D2[i] - R.D[i]) < 1e-12 * nn, "one-particle element %d = %.12g, want %.12g", i, D2[i], R.D[i]);
  }
  for(size_t i = 0; i < G.size(); ++i) REQ(std::fabs(G[i] - 0.5 * R.G[i]) < 1e-12 * nn, "two-particle element %zu = %.12g, want %.12g", i, G[i], 0.5 * R.G[i]);
  // natural orbitals: the integrals in the eigenvectors of the density, largest occupation first
  double tr = 0;
  for(int i = 0; i < n; ++i) tr += R.D[i * (n + 1)];
  vecd U = R.D, w = ref::eigh(U, n);
  for(int i = 0; i + 1 < n; ++i) if(w[i + 1] - w[i] < 1e-3 * tr) return;  // degenerate: not unique
  if(n && w[0] < -1e-12) return;
  for(int i = 0; i < n / 2; ++i) for(int p = 0; p < n; ++p) std::swap(U[p + n * i], U[p + n * (n - 1 - i)]);
  auto X = ref::transform(I, U, n);
  auto J = I;
  auto r = make_gen<N>(sd, J);
  auto DD = R.D;
  r->rotate_hamiltonian_ordm(DD.data());
  double sc = 1;
  for(double x : I.V) sc = std::max(sc, std::fabs(x));
  for(double x : I.T) sc = std::max(sc, std::fabs(x));
  for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) REQ(std::fabs(std::fabs(J.t(i, j)) - std::fabs(X.t(i, j))) < 1e-8 * sc * n, "rotated t(%d,%d) = %.12g, want +-%.12g", i, j, J.t(i, j), X.t(i, j));
  for(size_t i = 0; i < J.V.size(); ++i) REQ(std::fabs(std::fabs(J.V[i]) - std::fabs(X.V[i])) < 1e-8 * sc * n * n, "rotated two-electron element %zu = %.12g, want +-%.12g", i, J.V[i], X.V[i]);
  for(size_t i = 0; i < ds.size() && i < 6; ++i) for(size_t j = 0; j < ds.size() && j < 6; ++j) REQ(std::fabs(r->matrix_element(v[i], v[j]) - ref::elem(J, ds[i], ds[j])) < 1e-9 * sc * n * n, "matrix element after the rotation");
  auto full = ref::hilbert(n, na, nb);
  if(full.size() > 60) return;
  auto A = ref::hmat(I, full), B = ref::hmat(J, full);
  auto ea = ref::eigh(A, (int)full.size()), eb = ref::eigh(B, (int)full.size());
  for(size_t i = 0; i < ea.size(); ++i) REQ(std::fabs(ea[i] - eb[i]) < 1e-8 * sc * n * n, "level %zu is %.12g in the rotated orbitals, %.12g before", i, eb[i], ea[i]);
}
PBT(densities, 800, 8000, "at least four determinants") { int W = S.below(4), n = S.coin(1, 20) ? S.integer(5, 7) : S.integer(1, 4); WIDTHS(W, densities_, S, n); }

template <size_t N>
static std::vector<std::bitset<N>> run_search(dbwy::HamiltonianGenerator<N>& g, size_t keep, std::vector<std::bitset<N>>& v, size_t core, double E, const vecd& c, int n) {
  return dbwy::asci_search<N>(keep, v.begin(), v.begin() + core, E, c, n, g.T_pq_, g.G_red_.data(), g.V_red_.data(), g.G_pqrs_.data(), g.V_pqrs_, g, true);
}
template <size_t N>
static void search_(Src& S, int n) {
  Mute m;
  auto I = ref::gen_ints(S, n);
  int na = S.integer(0, n), nb = S.integer(0, n);
  if(na + nb == 0) nb = 1;
  auto ds = some_dets(S, n, na, nb, 12);
  pbt::Bulk b{S.seed()};
  vecd c(ds.size());
  for(size_t i = 0; i < c.size(); ++i) c[i] = b.sym(i) + (b.u(i) % 2 ? 0.05 : -0.05);
  size_t core = S.integer(1, (int)ds.size()), keep = S.edgy(1, 80);
  double E = S.real(-5, 5);
  bool sd = S.coin(), js = sd && S.coin(1, 4);  // single replacements only
  int nimp = S.coin(1, 4) ? S.integer(0, n) : -1;
  // scores from the definition
  std::map<Det, double> sc;
  double sc0 = 1;
  for(size_t i = 0; i < core; ++i) for(auto& [d, h] : ref::apply_h(I, ds[i])) {
    if(d == ds[i] || (js && ref::popc(d.a ^ ds[i].a) + ref::popc(d.b ^ ds[i].b) > 2)) continue;
    uint64_t xa = d.a ^ ds[i].a, xb = d.b ^ ds[i].b;
    if(nimp >= 0 && ref::popc(xa) + ref::popc(xb) > 2 && ((xa | xb) >> nimp)) continue;
    if(std::fabs(std::fabs(h) - 1e-8) < 1e-9) throw pbt::Discard{};
    if(std::fabs(h) < 1e-8) continue;
    double gap = E - ref::diag(I, d);
    if(std::fabs(gap) < 1e-3) throw pbt::Discard{};
    sc[d] += c[i] * h / gap;
    sc0 = std::max(sc0, std::fabs(sc[d]));
  }
  for(auto& [d, x] : sc) x = std::fabs(x);
  for(size_t i = 0; i < core; ++i) sc[ds[i]] = std::fabs(c[i]);
  S.note("bits=%zu n=%d up=%d down=%d core=%zu keep=%zu impurity=%d candidates=%zu", N, n, na, nb, core, keep, nimp, sc.size());
  if(nimp >= 0) S.label("doubles of a subset of the orbitals only");
  S.nontrivial(sc.size() > keep && core > 1);
  auto g = nimp < 0 ? make_gen<N>(sd, I) : sd ? make_imp<N, dbwy::SDBuildHamiltonianGenerator>(nimp, I) : make_imp<N, dbwy::DoubleLoopHamiltonianGenerator>(nimp, I);
  g->SetJustSingles(js);
  std::vector<std::bitset<N>> v;
  for(auto& d : ds) v.push_back(ref::to_bits<N>(d));
  auto got = run_search<N>(*g, keep, v, core, E, c, n);
  REQ(got.size() == std::min(keep, sc.size()), "%zu determinants, want %zu of %zu", got.size(), std::min(keep, sc.size()), sc.size());
  std::set<Det> gs;
  double worst = 1e300, tol = 1e-9 * sc0;
  for(auto& x : got) {
    Det d = ref::from_bits<N>(x);
    REQ(gs.insert(d).second, "%s is chosen twice", ref::str(d, n).c_str());
    auto it = sc.find(d);
    REQ(it != sc.end(), "%s is no candidate", ref::str(d, n).c_str());
    worst = std::min(worst, it->second);
  }
  for(auto& [d, x] : sc) REQ(gs.count(d) || x <= worst + tol, "%s with score %.9g is left out, %.9g is kept", ref::str(d, n).c_str(), x, worst);
}
PBT(search, 2500, 25000, "more candidates than are kept, and at least two core determinants") { int W = S.below(4), n = S.coin(1, 20) ? S.integer(6, 7) : S.integer(1, 5); WIDTHS(W, search_, S, n); }

template <size_t N>
static void merge_(Src& S) {
  // pairs with repeated states: summed, or the largest kept
  int k = S.edgy(0, 60), span = S.integer(1, 40);
  pbt::Bulk b{S.seed()};
  std::vector<dbwy::asci_contrib<N>> p(k);
  std::map<uint64_t, std::pair<double, double>> want;
  for(int i = 0; i < k; ++i) {
    uint64_t key = b.u(2 * i) % span;
    double x = b.sym(2 * i + 1);
    Det d{key % 7 + 1, key / 7};
    p[i].state = ref::to_bits<N>(d);
    p[i].rv = x;
    auto [it, fresh] = want.insert({(d.b << 16) | d.a, {x, x}});
    if(!fresh) { it->second.first += x; it->second.second = std::max(it->second.second, x); }
  }
  bool sum = S.coin();
  S.note("bits=%zu pairs=%d distinct=%zu sum=%d", N, k, want.size(), (int)sum);
  S.nontrivial(want.size() < (size_t)k && want.size() > 1);
  if(k) { if(sum) dbwy::sort_and_accumulate_asci_pairs(p); else dbwy::keep_only_largest_copy_asci_pairs(p); }
  REQ(p.size() == want.size(), "%zu pairs left, want %zu", p.size(), want.size());
  std::set<uint64_t> seen;
  for(auto& q : p) {
    Det d = ref::from_bits<N>(q.state);
    uint64_t key = (d.b << 16) | d.a;
    REQ(want.count(key) && seen.insert(key).second, "unexpected or repeated state");
    double w = sum ? want[key].first : want[key].second;
    REQ(std::fabs(q.rv - w) < 1e-12, "score %.12g, want %.12g", q.rv, w);
  }
  // reordering by weight keeps determinants and coefficients together
  std::vector<std::bitset<N>> dets;
  vecd c;
  for(auto& q : p) { dets.push_back(q.state); c.push_back(q.rv); }
  std::map<std::string, double> m0;
  for(size_t i = 0; i < c.size(); ++i) m0[dets[i].to_string()] = c[i];
  dbwy::reorder_ci_on_coeff(dets, c, MPI_COMM_SELF);
  REQ(dets.size() == p.size() && c.size() == p.size(), "sizes after reordering");
  std::set<std::string> s2;
  for(size_t i = 0; i < c.size(); ++i) {
    REQ(!i || std::fabs(c[i]) <= std::fabs(c[i - 1]), "coefficient %zu is larger than the one before", i);
    REQ(s2.insert(dets[i].to_string()).second && m0.count(dets[i].to_string()) && m0[dets[i].to_string()] == c[i], "coefficient %zu belongs to another determinant", i);
  }
}
PBT(merge, 4000, 40000, "repeated and different states") { Mute m; int W = S.below(4); WIDTHS(W, merge_, S); }

// lowest level of the space spanned by ds
static vecd spectrum(const ref::Ints& I, const std::vector<Det>& ds) { auto A = ref::hmat(I, ds); return ref::eigh(A, (int)ds.size()); }
static ref::Ints real_ints(Src& S, int n) {
  ref::Ints I(n);
  pbt::Bulk b{S.seed()};
  I.fill([&](uint64_t c) { return 0.25 * b.sym(c); });
  for(int p = 0; p < n; ++p) I.t(p, p) = -2. + 0.8 * p + 0.2 * b.sym(700000 + p);
  return I;
}
template <size_t N>
static void driver_(Src& S, int n) {
  Mute m;
  int na = S.integer(1, n - 1), nb = S.integer(1, n - 1);
  auto I = real_ints(S, n);
  auto I0 = I;
  auto full = ref::hilbert(n, na, nb);
  size_t target = S.integer(6, (int)full.size() + 3), core = S.integer(1, (int)full.size());
  bool sd = S.coin();
  int rots = S.coin(1, 3) ? S.integer(1, 7) : 0, refine = S.below(3) ? (int)S.integer(1, 8) : 0;
  S.note("bits=%zu n=%d up=%d down=%d target=%zu core=%zu sd=%d rotations=%d refine=%d", N, n, na, nb, target, core, (int)sd, rots, refine);
  S.nontrivial(target < full.size());
  auto g = make_gen<N>(sd, I);
  std::vector<std::bitset<N>> wfn{dbwy::canonical_hf_determinant<N>(na, nb)};
  vecd X{1.0};
  double E = g->matrix_element(wfn[0], wfn[0]), E0 = E;
  if(rots) std::tie(E, wfn, X) = dbwy::asci_grow_with_rot<N>(target, core, 8, E, wfn, X, *g, n, 1e-12, 100, 1e-8, std::function<void(double)>(), rots, true);
  else std::tie(E, wfn, X) = dbwy::asci_grow<N>(target, core, 8, E, wfn, X, *g, n, 1e-12, 100, 1e-8, std::function<void(double)>(), true);
  auto check = [&](const char* what) {
    std::vector<Det> ds;
    std::set<Det> s;
    for(auto& x : wfn) { ds.push_back(ref::from_bits<N>(x)); REQ(s.insert(ds.back()).second, "%s: determinant listed twice", what); REQ(ref::popc(ds.back().a) == na && ref::popc(ds.back().b) == nb && !((ds.back().a | ds.back().b) >> n), "%s: %s has other electrons", what, ref::str(ds.back(), n).c_str()); }
    REQ(wfn.size() <= target && wfn.size() == X.size(), "%s: %zu determinants, %zu coefficients, at most %zu", what, wfn.size(), X.size(), target);
    if(wfn.size() == 1) return;
    auto H = ref::hmat(I, ds);
    auto w = spectrum(I, ds);
    REQ(std::fabs(E - w[0]) < 1e-7, "%s: energy %.12g, lowest level of the chosen determinants %.12g", what, E, w[0]);
    double nx = 0, r = 0;
    for(double x : X) nx += x * x;
    REQ(std::fabs(nx - 1) < 1e-8, "%s: norm %.12g", what, nx);
    size_t M = ds.size();
    for(size_t i = 0; i < M; ++i) { double t = -E * X[i]; for(size_t j = 0; j < M; ++j) t += H[i + j * M] * X[j]; r += t * t; }
    REQ(std::sqrt(r) < 1e-6, "%s: residual %.3g", what, std::sqrt(r));
  };
  check("grow");
  double e0 = spectrum(I0, full)[0];
  REQ(E >= e0 - 1e-8, "energy %.12g below the exact %.12g", E, e0);
  if(wfn.size() == full.size()) REQ(std::fabs(E - e0) < 1e-7, "whole space: energy %.12g, exact %.12g", E, e0);
  if(refine && wfn.size() > 3) {
    double tol = S.oneof({1e-6, 1e-6, 1e-9, 1e-3, 1e-1});
    vecd es{E};
    std::function<void(double)> record = [&](double x) { es.push_back(x); };
    std::tie(E, wfn, X) = dbwy::asci_refine<N>(core, tol, refine, E, wfn, X, *g, n, 1e-12, 100, 1e-8, record, true);
    // it stops at the first step that changes the energy by less than the tolerance
    REQ((int)es.size() <= refine + 1, "%zu refinement steps, at most %d", es.size() - 1, refine);
    REQ(es.back() == E, "energy %.12g, of the last step %.12g", E, es.back());
    for(size_t i = 1; i < es.size(); ++i) {
      double d = std::fabs(es[i] - es[i - 1]);
      if(std::fabs(d - tol) < 1e-12) continue;
      if(i + 1 < es.size()) REQ(d >= tol, "step %zu changes the energy by %.3g, it goes on (tolerance %g)", i, d, tol);
      else if((int)i < refine) REQ(d < tol, "it stops after step %zu of %d that changes the energy by %.3g (tolerance %g)", i, refine, d, tol);
    }
    S.label(es.size() < (size_t)refine + 1 ? "refinement converged" : "refinement at the limit");
    check("refine");
    REQ(E >= e0 - 1e-8, "refined energy %.12g below the exact %.12g", E, e0);
  }
}
PBT(driver, 400, 4000, "fewer determinants than the whole space") { int W = S.below(4), n = S.integer(3, 5); WIDTHS(W, driver_, S, n); }

static void dump(const ref::Ints& I, const std::string& f) {
  std::ofstream o(f);
  o.precision(17);
  int n = I.n;
  o << "0 0 0 0 " << I.core << "\n";
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) if(I.t(p, q) != 0) o << p + 1 << " " << q + 1 << " 0 0 " << I.t(p, q) << "\n";
  for(int p = 0; p < n; ++p) for(int q = 0; q <= p; ++q) for(int r = 0; r <= p; ++r) for(int s = 0; s <= (r == p ? q : r); ++s)
    if(I.v(p, q, r, s) != 0) o << p + 1 << " " << q + 1 << " " << r + 1 << " " << s + 1 << " " << I.v(p, q, r, s) << "\n";
}
// the complete programs, from an integral file
PBT(program, 200, 2000, "more than nine determinants") {
  Mute m;
  constexpr size_t N = 64;
  int n = S.integer(3, 4), na = S.integer(1, n - 1), nb = S.integer(1, n - 1);
  auto I = real_ints(S, n);
  I.core = S.real(-20, 20);
  bool js = S.coin(1, 3);
  if(js) for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int r = 0; r < n; ++r) for(int s = 0; s < n; ++s) if(p != q && r != s) I.v(p, q, r, s) = 0;
  dump(I, "ints.dat");
  auto full = ref::hilbert(n, na, nb);
  bool ed = S.coin(), wf = S.coin();
  size_t nt = S.integer(6, (int)full.size() + 4);
  S.note("n=%d up=%d down=%d singles=%d ed=%d determinants=%zu", n, na, nb, (int)js, (int)ed, nt);
  S.nontrivial(full.size() > 9);
  cmz::ed::Input_t in;
  auto put = [&](const char* k, int v) { in[k] = std::to_string(v); };
  put("norbs", n); put("nups", na); put("ndos", nb); put("ntdets_max", nt); put("ncdets_max", 200); put("niter_max", S.below(4)); put("coeff_thresh", 0);
  in["quiet"] = "T"; in["real_ints"] = "T"; in["fcidump_file"] = "ints.dat"; in["read_wfn"] = "F"; in["print_wf"] = wf ? "T" : "F";
  // in rotated orbitals the density has the same eigenvalues; its elements belong to other orbitals
  int rots = ed || S.coin() ? 0 : (int)S.integer(1, 8);
  if(rots) { put("n_orb_rots", rots); S.label("orbital rotations"); }
  double E;
  vecd D;
  if(ed) std::tie(E, D) = dbwy::run_ed_w_1rdm<N>(in); else std::tie(E, D) = dbwy::run_asci_w_1rdm<N>(in);
  auto A = ref::hmat(I, full);
  auto w = ref::eigh(A, (int)full.size());
  REQ(E - I.core > w[0] - 1e-8, "energy %.12g below the exact %.12g", E, w[0] + I.core);
  if(ed) REQ(std::fabs(E - I.core - w[0]) < 1e-7, "energy %.12g, exact %.12g", E, w[0] + I.core);
  double tr = 0;
  REQ((int)D.size() == n * n, "density has %zu elements", D.size());
  for(int p = 0; p < n; ++p) tr += D[p * (n + 1)];
  REQ(std::fabs(tr - na - nb) < 1e-7, "trace of the density %.12g", tr);
  for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) REQ(std::fabs(D[p + n * q] - D[q + n * p]) < 1e-10, "density not symmetric");
  if(std::fabs(E - I.core - w[0]) < 1e-10 && w[1] - w[0] > 1e-2) {
    vecd c(A.begin(), A.begin() + full.size());
    auto R = ref::rdms(n, full, c);
    if(rots) {
      auto x = R.D, y = D;
      auto ox = ref::eigh(x, n), oy = ref::eigh(y, n);
      for(int i = 0; i < n; ++i) REQ(std::fabs(ox[i] - oy[i]) < 1e-4, "natural occupation %d is %.9g, want %.9g", i, oy[i], ox[i]);
    }
    else for(int i = 0; i < n * n; ++i) REQ(std::fabs(R.D[i] - D[i]) < 1e-4, "density element %d is %.9g, want %.9g", i, D[i], R.D[i]);
  }
  if(wf) {
    std::string f = ed ? "final_ed_wf.dat" : "final_asci_wf.dat";
    std::ifstream i(f);
    size_t cnt = 0, k = 0;
    REQ((bool)(i >> cnt), "no wave function written");
    double x, nn = 0;
    std::string s;
    std::set<Det> seen;
    vecd cc;
    std::vector<Det> ds;
    while(i >> x >> s) { ++k; nn += x * x; Det d = ref::from_bits<N>(dbwy::from_canonical_string<N>(s)); REQ(seen.insert(d).second && ref::popc(d.a) == na && ref::popc(d.b) == nb, "determinant %s written", s.c_str()); ds.push_back(d); cc.push_back(x); }
    REQ(k == cnt && std::fabs(nn - 1) < 1e-3, "%zu of %zu determinants, norm %.6g", k, cnt, nn);
    auto H = ref::hmat(I, ds);
    double e = 0;
    for(size_t a = 0; a < k; ++a) for(size_t b = 0; b < k; ++b) e += cc[a] * cc[b] * H[a + b * k];
    if(!rots) REQ(std::fabs(e / nn - (E - I.core)) < 1e-3 * (1 + std::fabs(e)), "written wave function has the energy %.9g, reported %.9g", e / nn, E - I.core);
    remove(f.c_str());
  }
  remove("ints.dat");
}
