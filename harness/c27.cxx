// C27: sparse matrix-vector products equal the dense product, serial and distributed
#include <iostream>
#include <optional>
#include <set>
#include <omp.h>
#include <unistd.h>
#include "sparsegen.hpp"
#ifdef PBT_MPI
#include "mpi.hpp"
#endif
#include <sparsexx/spblas/spmbv.hpp>
#include <sparsexx/spblas/pspmbv.hpp>
using pbt::Src;

#ifdef SERIAL
template <class IT>
static void product(Src& S, pbt::Bulk& b, int threads) {
  Sp A = gen_sp(S, b, false, 16);
  int base = (int)S.below(2);
  int64_t K = S.edgy(0, 4), ldv = A.n + (int64_t)S.below(3), ldav = A.m + (int64_t)S.below(3);
  double al = S.pick<double>({1, 1, 0, -1, 0.37}), be = S.pick<double>({0, 1, -1, 0.61});
  bool coo = S.coin();
  omp_set_num_threads(threads);
  S.note("base %d, %lld vectors, LDV %lld LDAV %lld, alpha %g beta %g, %s", base, (long long)K, (long long)ldv, (long long)ldav, al, be, coo ? "coordinates" : "compressed rows");
  // buffers end with the last element, padding holds a mark (and NaN on input)
  const double mark = -77.25, ys = S.coin(1, 4) ? 1e-17 : 1.;
  std::vector<double> V(K ? ldv * (K - 1) + A.n : 0, std::nan("")), AV(K ? ldav * (K - 1) + A.m : 0, mark);
  for(int64_t k = 0; k < K; ++k) {
    for(int64_t j = 0; j < A.n; ++j) V[j + k * ldv] = b.sym(3000000 + 1000 * k + j);
    for(int64_t i = 0; i < A.m; ++i) AV[i + k * ldav] = ys * b.sym(4000000 + 1000 * k + i);
  }
  auto W = AV, B = AV;  // the result, and the size of what is added up in it
  for(int64_t k = 0; k < K; ++k) {
    for(int64_t i = 0; i < A.m; ++i) { W[i + k * ldav] *= be; B[i + k * ldav] = std::fabs(W[i + k * ldav]); }
    for(auto& e : A.t) { W[e.i + k * ldav] += al * e.v * V[e.j + k * ldv]; B[e.i + k * ldav] += std::fabs(al * e.v * V[e.j + k * ldv]); }
  }
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  if(coo && S.coin()) std::reverse(order.begin(), order.end());
  if(coo) sparsexx::spblas::gespmbv(K, al, make_coo<IT>(A, base, order), V.data(), ldv, be, AV.data(), ldav);
  else if(S.coin()) sparsexx::spblas::gespmbv(K, al, shuffle_rows(make_csr<IT>(A, base), b), V.data(), ldv, be, AV.data(), ldav);
  else sparsexx::spblas::gespmbv(K, al, make_csr<IT>(A, base), V.data(), ldv, be, AV.data(), ldav);
  for(size_t i = 0; i < AV.size(); ++i) {
    if(W[i] == mark) REQ(AV[i] == mark, "padding element %zu is written", i);
    else REQ(std::fabs(AV[i] - W[i]) <= 1e-15 * (4 + A.n) * B[i], "element (%zu,%zu) is %.15g, want %.15g", i % ldav, i / ldav, AV[i], W[i]);
  }
  S.nontrivial(K > 1 && A.t.size() > 1 && al != 0 && (ldv > A.n || ldav > A.m));
}
PBT(serial, 16000, 500000, "two or more vectors, padded, alpha not zero") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) product<int32_t>(S, b, 1); else product<int64_t>(S, b, 1);
}
PBT(serial_threads, 300, 10000, "two or more vectors, padded, alpha not zero, two to eight threads") {
  pbt::Bulk b{S.seed()};
  int t = (int)S.integer(2, 8);
  if(S.coin()) product<int32_t>(S, b, t); else product<int64_t>(S, b, t);
}
// enough work that the threads overlap; in coordinate form entries of a row lie anywhere in the list
template <class IT>
static void busy(Src& S, pbt::Bulk& b) {
  int t = (int)S.integer(2, 8), base = (int)S.below(2), rounds = 3;
  bool coo = S.coin(), thin = S.coin();
  int64_t K = S.integer(1, 4), m = thin ? S.integer(1, 12) : S.integer(200, 3000), n = thin ? S.integer(500, 3000) : S.integer(20, 400);
  S.note("%lldx%lld, %lld vectors, base %d, %s, %d threads", (long long)m, (long long)n, (long long)K, base, coo ? "coordinates" : "compressed rows", t);
  S.nontrivial();
  Sp A;
  A.m = m; A.n = n;
  for(int64_t i = 0; i < m; ++i) for(int64_t j = 0; j < n; ++j) if(thin || b.u(4000 * i + j) % 20 == 0) A.t.push_back({i, j, b.sym(100000000 + 4000 * i + j)});
  std::vector<size_t> order(A.t.size());
  std::iota(order.begin(), order.end(), 0);
  if(coo) for(size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[b.u(500000000 + k) % k]);
  std::vector<double> V(n * K), W(m * K), B(m * K), AV;
  for(size_t k = 0; k < V.size(); ++k) V[k] = b.sym(900000000 + k);
  for(int64_t k = 0; k < K; ++k) for(auto& e : A.t) { double x = e.v * V[e.j + k * n]; W[e.i + k * m] += x; B[e.i + k * m] += std::fabs(x); }
  omp_set_num_threads(t);
  auto C = make_coo<IT>(A, base, order);
  auto R = make_csr<IT>(A, base);
  for(int r = 0; r < rounds; ++r) {
    AV.assign(m * K, r);
    if(coo) sparsexx::spblas::gespmbv(K, 1., C, V.data(), n, 0.5, AV.data(), m);
    else sparsexx::spblas::gespmbv(K, 1., R, V.data(), n, 0.5, AV.data(), m);
    for(size_t i = 0; i < AV.size(); ++i) REQ(std::fabs(AV[i] - W[i] - 0.5 * r) <= 1e-15 * (4 + n) * (B[i] + r), "product %d: element (%zu,%zu) is %.15g, want %.15g", r + 1, i % m, i / m, AV[i], W[i] + 0.5 * r);
  }
}
PBT(busy_threads, 120, 3000, "always: two to eight threads, thousands of entries") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) busy<int32_t>(S, b); else busy<int64_t>(S, b);
}
#else
using M = Csr<int32_t>;
using DM = sparsexx::dist_sparse_matrix<M>;
PBT(distributed, 3000, 60000, "two or more processes exchange vector elements") {
  pbt::Bulk b{S.seed()};
  auto C = gen_comm(S);
  Sp A = gen_sp(S, b, true, 40);
  int base = (int)S.below(2), how = (int)S.below(3);
  double al = S.pick<double>({1, 1, 0, -1, 0.37}), be = S.pick<double>({0, 1, -1, 0.61});
  // cut points, possibly equal (processes without rows)
  std::vector<int32_t> cut{0};
  for(int k = 1; k < C.size; ++k) cut.push_back((int32_t)(b.u(900 + k) % (A.m + 1)));
  cut.push_back((int32_t)A.m);
  std::sort(cut.begin(), cut.end());
  bool custom = S.coin(2, 3);
  int copies = (int)S.below(4);
  if(!custom) for(int k = 1; k < C.size; ++k) cut[k] = (int32_t)(A.m / C.size * k);
  S.note("base %d on %d processes, %s rows, copies %d, alpha %g beta %g, built %d", base, C.size, custom ? "custom" : "default", copies, al, be, how);
  if(!C.in()) return;
  std::vector<std::pair<int32_t, int32_t>> tiles;
  for(int k = 0; k < C.size; ++k) tiles.push_back({cut[k], cut[k + 1]});
  int64_t r0 = cut[C.rank], r1 = cut[C.rank + 1];
  M csr = make_csr<int32_t>(A, base);
  std::optional<DM> D;
  Sp dia, off;
  dia.m = dia.n = off.m = r1 - r0;
  off.n = A.n;
  for(auto& e : A.t) if(e.i >= r0 && e.i < r1) {
    if(e.j >= r0 && e.j < r1) dia.t.push_back({e.i - r0, e.j - r0, e.v});
    else off.t.push_back({e.i - r0, e.j, e.v});
  }
  bool skip_off = false;
  if(how < 2) { if(custom) D.emplace(C.c, csr, tiles); else D.emplace(C.c, csr); }
  else {
    if(custom) D.emplace(C.c, A.m, A.n, tiles); else D.emplace(C.c, A.m, A.n);
    D->set_diagonal_tile(make_csr<int32_t>(dia, 0));
    skip_off = off.t.empty() && b.u(1234) % 2;  // a process that needs nothing may have no remote tile
    if(!skip_off) D->set_off_diagonal_tile(make_csr<int32_t>(off, 0));
  }
  if(copies == 1) { DM E(*D); D.emplace(std::move(E)); }
  if(copies == 2) { DM E(std::move(*D)); D.emplace(std::move(E)); }
  if(copies == 3) { DM E(*D); D.emplace(E); }
  SOFT(D->m() == A.m && D->n() == A.n, "%lldx%lld", (long long)D->m(), (long long)D->n());
  for(int k = 0; k < C.size; ++k) SOFT(D->row_bounds(k) == tiles[k] && D->row_extent(k) == cut[k + 1] - cut[k], "process %d: rows [%d,%d), want [%d,%d)", k, D->row_bounds(k).first, D->row_bounds(k).second, cut[k], cut[k + 1]);
  SOFT(D->local_row_start() == r0 && D->local_row_extent() == r1 - r0, "local rows");
  SOFT(D->nnz() == (int64_t)(dia.t.size() + off.t.size()), "nnz %lld", (long long)D->nnz());
  try {
    equal(dia, D->diagonal_tile(), 0, "local tile");
    if(!skip_off) equal(off, D->off_diagonal_tile(), 0, "remote tile");
  } catch(pbt::Fail& f) { S.soft_fail(f.msg); }
  if(C.any(!S.soft.empty())) return;
  auto info = sparsexx::spblas::generate_spmv_comm_info(*D);
  // the plan: exactly the elements needed, each from its owner
  std::set<int64_t> need;
  for(auto& e : off.t) need.insert(e.j);
  SOFT(info.recv_indices.size() == need.size(), "%zu elements received, %zu needed", info.recv_indices.size(), need.size());
  size_t vol = info.communication_volume(), tot = 0;
  for(auto x : C.gatherv(std::vector<size_t>{need.size()})) tot += x;
  SOFT(vol <= tot && vol + C.size > tot, "communication volume %zu, %zu elements travel", vol, tot);
  int rounds = (int)S.integer(1, 3);
  const double ys = S.coin(1, 4) ? 1e-17 : 1.;
  for(int r = 0; r < rounds; ++r) {
    std::vector<double> x(A.n), V(r1 - r0), AV(r1 - r0), W, B;
    for(int64_t i = 0; i < A.n; ++i) x[i] = b.sym(3000000 + 1000 * r + i);
    for(int64_t i = r0; i < r1; ++i) { V[i - r0] = x[i]; AV[i - r0] = ys * b.sym(4000000 + 1000 * r + i); }
    W = AV;
    for(auto& w : W) { w *= be; B.push_back(std::fabs(w)); }
    for(auto& e : A.t) if(e.i >= r0 && e.i < r1) { W[e.i - r0] += al * e.v * x[e.j]; B[e.i - r0] += std::fabs(al * e.v * x[e.j]); }
    sparsexx::spblas::pgespmv(al, *D, V.data(), be, AV.data(), info);
    for(int64_t i = 0; i < r1 - r0; ++i) SOFT(std::fabs(AV[i] - W[i]) <= 1e-15 * (4 + A.n) * B[i], "product %d, row %lld is %.15g, want %.15g", r + 1, (long long)(r0 + i), AV[i], W[i]);
  }
  S.nontrivial(C.size > 1 && tot > 0);
  bool idle = false;
  for(int k = 0; k < C.size; ++k) idle |= cut[k] == cut[k + 1];
  if(idle) S.label("a process without rows");
  if(C.size > 1 && tot == 0) S.label("nothing to exchange");
}

// messages of thousands of elements, processes that arrive at different times
PBT(distributed_large, 40, 800, "some process receives 2000 or more elements from another") {
  pbt::Bulk b{S.seed()};
  auto C = gen_comm(S);
  int64_t n = S.integer(2000, 30000), per = S.integer(1, 4), band = S.coin(1, 4) ? S.integer(1, n - 1) : n;
  int base = (int)S.below(2), rounds = (int)S.integer(1, 3);
  bool custom = S.coin(), late = S.coin();
  std::vector<int32_t> cut{0};
  for(int k = 1; k < C.size; ++k) cut.push_back(custom ? (int32_t)(b.u(900 + k) % (n + 1)) : (int32_t)(n / C.size * k));
  cut.push_back((int32_t)n);
  std::sort(cut.begin(), cut.end());
  S.note("%lld rows, %lld entries in each, within %lld columns, base %d on %d processes, %s rows%s", (long long)n, (long long)per, (long long)band, base, C.size, custom ? "custom" : "default", late ? ", late processes" : "");
  if(!C.in()) return;
  auto wait = [&](int r) { if(late) usleep(b.u(77 + 10 * r + C.rank) % 3 * 400); };
  std::vector<std::vector<int64_t>> col(n);
  M A(n, n, n * per, base);
  size_t z = 0;
  A.rowptr()[0] = base;
  for(int64_t i = 0; i < n; ++i) {
    std::set<int64_t> c;
    for(int64_t q = 0; (int64_t)c.size() < per; ++q) c.insert((int64_t)((i + b.u(5000000 + 64 * i + q) % band + q) % n));
    col[i].assign(c.begin(), c.end());
    for(auto j : c) { A.colind()[z] = j + base; A.nzval()[z] = b.sym(9000000 + 8 * i + j % 8); ++z; }
    A.rowptr()[i + 1] = z + base;
  }
  std::vector<std::pair<int32_t, int32_t>> tiles;
  for(int k = 0; k < C.size; ++k) tiles.push_back({cut[k], cut[k + 1]});
  wait(1);
  std::optional<DM> D;
  if(custom) D.emplace(C.c, A, tiles); else D.emplace(C.c, A);
  auto info = sparsexx::spblas::generate_spmv_comm_info(*D);
  int64_t r0 = cut[C.rank], r1 = cut[C.rank + 1];
  std::vector<std::set<int64_t>> need(C.size);
  for(int64_t i = r0; i < r1; ++i) for(auto j : col[i]) if(j < r0 || j >= r1) need[std::upper_bound(cut.begin(), cut.end(), (int32_t)j) - cut.begin() - 1].insert(j);
  size_t most = 0;
  for(auto& s : need) most = std::max(most, s.size());
  size_t all = 0;
  for(auto x : C.gatherv(std::vector<size_t>{most})) all = std::max(all, x);
  for(int r = 0; r < rounds; ++r) {
    std::vector<double> x(n), V(r1 - r0), AV(r1 - r0, 0.25 * r);
    for(int64_t i = 0; i < n; ++i) x[i] = b.sym(30000000 + 100000 * r + i);
    std::copy(x.begin() + r0, x.begin() + r1, V.begin());
    wait(2 + r);
    sparsexx::spblas::pgespmv(1.5, *D, V.data(), 0.5, AV.data(), info);
    for(int64_t i = r0; i < r1; ++i) {
      double w = 0.125 * r;
      for(size_t q = 0; q < col[i].size(); ++q) w += 1.5 * x[col[i][q]] * A.nzval()[i * per + q];
      SOFT(std::fabs(AV[i - r0] - w) < 1e-12, "product %d, row %lld is %.15g, want %.15g", r + 1, (long long)i, AV[i - r0], w);
      if(!S.soft.empty()) break;
    }
  }
  S.nontrivial(all >= 2000);
}

PBT(tiles, 1500, 20000, "rejected for a reason other than the number of tiles") {
  auto C = gen_comm(S);
  pbt::Bulk b{S.seed()};
  int64_t m = S.edgy(1, 12);
  std::vector<std::pair<int32_t, int32_t>> t;
  std::vector<int32_t> cut{0};
  for(int k = 1; k < C.size; ++k) cut.push_back((int32_t)(b.u(900 + k) % (m + 1)));
  cut.push_back((int32_t)m);
  std::sort(cut.begin(), cut.end());
  for(int k = 0; k < C.size; ++k) t.push_back({cut[k], cut[k + 1]});
  int bad = (int)S.below(8);
  size_t k = b.u(5) % C.size;
  bool ok = true;
  switch(bad) {
    case 1: t.push_back({(int32_t)m, (int32_t)m}); ok = false; break;
    case 2: t[0].first = 1; if(t[0].second < 1) t[0].second = 1; ok = false; break;
    case 3: t.back().second = (int32_t)m + 1; ok = false; break;
    case 4: if(t[k].first != t[k].second) { std::swap(t[k].first, t[k].second); ok = false; } break;
    case 6: t.back().second = (int32_t)m - 1; if(t.back().first > t.back().second) t.back().first = t.back().second; ok = false; break;
    case 7: if(k && t[k].first > 0) { t[k].first -= 1; ok = false; } break;
    case 5: if(k) { t[k].first += 1; if(t[k].second < t[k].first) t[k].second = t[k].first; ok = false; } break;
  }
  S.note("%lld rows on %d processes, defect %d", (long long)m, C.size, bad);
  if(!C.in()) return;
  bool threw = false;
  try { DM D(C.c, m, m, t); } catch(std::runtime_error&) { threw = true; }
  SOFT(threw == !ok, "%s", threw ? "a valid row partition is refused" : "an invalid row partition is accepted");
  S.nontrivial(!ok && bad > 1);
}
#endif
