// C26, with METIS enabled: graph partitioning. METIS itself is replaced by a stand-in that
// records what it is given, then answers arbitrarily, calls the real one, or fails.
#include <dlfcn.h>
#include <metis.h>
#include "sparsegen.hpp"
#include <sparsexx/util/graph.hpp>
#include <sparsexx/util/permute.hpp>
using pbt::Src;

static struct {
  int mode, calls;
  uint64_t seed;
  std::vector<idx_t> xadj, adj;
  idx_t n, k, ncon;
  bool weights;
} rec;
extern "C" int METIS_SetDefaultOptions(idx_t* o) { std::fill(o, o + METIS_NOPTIONS, -1); return METIS_OK; }
extern "C" int METIS_PartGraphKway(idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adj, idx_t* vw, idx_t* vs, idx_t* aw, idx_t* k, real_t* tw, real_t* ub, idx_t* opt, idx_t* cut, idx_t* part) {
  ++rec.calls;
  rec.n = *n; rec.k = *k; rec.ncon = *ncon;
  rec.weights = vw || vs || aw || tw || ub;
  rec.xadj.assign(xadj, xadj + *n + 1);
  rec.adj.assign(adj, adj + xadj[*n]);
  if(rec.mode == 2) {
    using F = int (*)(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
    static F real = [] { void* h = dlopen("libmetis.so.5", RTLD_NOW); return h ? (F)dlsym(h, "METIS_PartGraphKway") : nullptr; }();
    if(real) return real(n, ncon, xadj, adj, vw, vs, aw, k, tw, ub, opt, cut, part);
  }
  if(rec.mode == 3) return rec.seed % 2 ? METIS_ERROR : METIS_ERROR_MEMORY;
  pbt::Bulk b{rec.seed};
  for(idx_t i = 0; i < *n; ++i) part[i] = (idx_t)(b.u(i) % *k);
  *cut = 0;
  return METIS_OK;
}

PBT(kway, 6000, 100000, "three or more parts of a graph with edges") {
  Mute mute;
  pbt::Bulk b{S.seed()};
  Sp A = S.coin(1, 300) ? gen_hyper(S, b, true) : gen_sp(S, b, true, 30);
  int base = (int)S.below(2);
  rec = {};
  rec.mode = (int)S.below(5);
  rec.seed = S.seed();
  int64_t k = S.coin(1, 10) ? S.integer(-1, 1) : S.integer(2, std::max<int64_t>(2, std::min<int64_t>(A.m, 9)));
  // a symmetric graph for METIS proper
  if(rec.mode == 2) {
    std::set<std::pair<int64_t, int64_t>> e;
    for(auto& t : A.t) { e.insert({t.i, t.j}); e.insert({t.j, t.i}); }
    A.t.clear();
    for(auto& [i, j] : e) A.t.push_back({i, j, 1.});
    if(k > A.m) k = A.m;
  }
  S.note("base %d, %lld parts, %s", base, (long long)k, rec.mode == 2 ? "METIS" : rec.mode == 3 ? "failing" : "stand-in");
  auto csr = make_csr<int32_t>(A, base);
  bool threw = false;
  std::vector<int32_t> part;
  try { part = sparsexx::kway_partition(k, csr); } catch(std::runtime_error&) { threw = true; }
  equal(A, csr, base, "the argument");
  if(k < 2) { REQ(threw && !rec.calls, "%lld parts are accepted", (long long)k); S.label("fewer than two parts"); return; }
  REQ(rec.calls == 1, "METIS is called %d times", rec.calls);
  // the graph it gets: off-diagonal entries, counted from zero
  REQ(rec.n == A.m && rec.k == k && rec.ncon == 1 && !rec.weights, "METIS is asked for %d parts of %d vertices", (int)rec.k, (int)rec.n);
  std::vector<Trip> got;
  Sp W = A;
  W.t.clear();
  for(auto& e : A.t) if(e.i != e.j) W.t.push_back({e.i, e.j, 1.});
  same(W, compressed(rec.xadj, rec.adj, std::vector<double>(rec.adj.size(), 1.), A.m, 0, true), "the graph given to METIS");
  if(rec.mode == 3) { REQ(threw, "METIS failed and nothing is reported"); S.label("failure"); return; }
  REQ(!threw, "refused");
  REQ((int64_t)part.size() == A.m, "%zu parts for %lld rows", part.size(), (long long)A.m);
  for(int64_t i = 0; i < A.m; ++i) {
    REQ(part[i] >= 0 && part[i] < k, "row %lld is in part %d of %lld", (long long)i, part[i], (long long)k);
    if(rec.mode != 2) { pbt::Bulk q{rec.seed}; REQ(part[i] == (int32_t)(q.u(i) % k), "row %lld: part %d differs from the answer of METIS", (long long)i, part[i]); }
  }
  // collecting the parts keeps the matrix
  auto [perm, ptr] = sparsexx::perm_from_part(k, part);
  REQ((int64_t)perm.size() == A.m && ptr[k] == A.m, "parts do not cover the rows");
  S.nontrivial(k > 2 && W.t.size() > 1);
  S.label(rec.mode == 2 ? "METIS" : "stand-in");
}
