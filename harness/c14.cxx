// C14: distributed selection and the typed collective wrappers
#include <bitset>
#include <numeric>
#include "pbt.hpp"
#include "mpi.hpp"
#include <macis/util/mpi.hpp>
#include <macis/util/dist_quickselect.hpp>
#include <macis/bitset_operations.hpp>
using pbt::Src;

// the collectives under the wrappers; `tape` records calls instead of making them
struct Call { const char* send; char* recv; int count, size; };
static std::vector<Call>* tape = nullptr;
static int record(const void* s, void* r, int n, MPI_Datatype t) {
  int sz = 0;
  PMPI_Type_size(t, &sz);
  tape->push_back({(const char*)s, (char*)r, n, sz});
  return MPI_SUCCESS;
}
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return tape ? record(s, r, n, t) : PMPI_Allreduce(s, r, n, t, o, c); }
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { return tape ? record(b, b, n, t) : PMPI_Bcast(b, n, t, root, c); }

template <class T> struct G;
template <> struct G<int> { static const char* nm() { return "int"; } static int any(Src& S) { return S.coin(1, 6) ? (S.coin() ? INT_MAX : INT_MIN) : (int)S.integer(-1000000, 1000000); } static int few(int k) { return k - 2; } };
template <> struct G<size_t> { static const char* nm() { return "size_t"; } static size_t any(Src& S) { return S.bits64() >> (S.below(4) * 16); } static size_t few(int k) { return k ? (1ull << 62) + k : 0; } };
template <> struct G<double> { static const char* nm() { return "double"; } static double any(Src& S) { return ((double)S.integer(-1000000, 1000000)) * std::pow(10., (double)S.integer(-12, 8)); } static double few(int k) { return k == 1 ? -0.5 : k == 2 ? 1e-300 : k == 3 ? 1e300 : k; } };
template <> struct G<float> { static const char* nm() { return "float"; } static float any(Src& S) { return (float)S.integer(-100000, 100000) / 8; } static float few(int k) { return k / 3.f; } };
template <> struct G<char> { static const char* nm() { return "char"; } static char any(Src& S) { return (char)S.integer(-128, 127); } static char few(int k) { return (char)k; } };
template <size_t N> struct G<std::bitset<N>> {
  static const char* nm() { return N == 64 ? "bitset64" : N == 128 ? "bitset128" : "bitset256"; }
  static std::bitset<N> any(Src& S) { std::bitset<N> b; for(size_t w = 0; w < N; w += 64) { uint64_t x = S.coin(1, 3) ? 0 : S.bits64(); for(int i = 0; i < 64; ++i) b[w + i] = x >> i & 1; } return b; }
  static std::bitset<N> few(int k) { std::bitset<N> b; b[k * 11 % N] = 1; b[N - 1 - k] = 1; return b; }
};
template <class T> bool lt(const T& a, const T& b) { return a < b; }
template <size_t N> bool lt(const std::bitset<N>& a, const std::bitset<N>& b) {
  for(int i = (int)N - 1; i >= 0; --i) if(a[i] != b[i]) return b[i];
  return false;
}

struct Lt { template <class T> bool operator()(const T& a, const T& b) const { return lt(a, b); } };
// all ranks draw the same global data; every rank takes its own share
template <class T>
std::vector<T> gen_data(Src& S, size_t n) {
  std::vector<T> v(n);
  int mode = (int)S.below(5), nd = (int)S.integer(1, 5);
  for(size_t i = 0; i < n; ++i)
    v[i] = mode == 0 ? G<T>::few(0) : (mode == 1 || (mode == 2 && S.coin())) ? G<T>::few((int)S.below(nd)) : G<T>::any(S);
  if(mode == 3) std::sort(v.begin(), v.end(), Lt{});
  if(mode == 4) { std::sort(v.begin(), v.end(), Lt{}); if(S.coin()) std::reverse(v.begin(), v.end()); }
  S.label("data" + std::to_string(mode));
  return v;
}
inline std::vector<int> gen_shares(Src& S, int n, int P) {
  std::vector<int> c(P, 0);
  switch(S.below(4)) {
    case 0: for(int i = 0; i < n; ++i) c[i % P]++; break;
    case 1: c[S.below(P)] = n; break;
    case 2: { int left = n; for(int p = 0; p < P; ++p) { c[p] = p == P - 1 ? left : (int)S.integer(0, left); left -= c[p]; } break; }
    default: { std::vector<bool> on(P); bool any = false; for(int p = 0; p < P; ++p) { on[p] = S.coin(); any |= on[p]; } if(!any) on[S.below(P)] = true; for(int i = 0; i < n;) for(int p = 0; p < P && i < n; ++p) if(on[p]) { ++c[p]; ++i; } }
  }
  return c;
}

template <class T>
void qsel(Src& S) {
  auto C = gen_comm(S);
  int n = (int)(S.coin(1, 3) ? S.integer(1, 8) : S.coin(1, 12) ? S.integer(61, 3000) : S.integer(1, 60));
  auto all = gen_data<T>(S, n);
  auto sh = gen_shares(S, n, C.size);
  bool desc = S.coin();
  int k = (int)S.edgy(1, n);
  bool allk = n <= 12 && S.coin();
  int emp = 0;
  for(int c : sh) emp += c == 0;
  S.note("type=%s ranks=%d n=%d k=%d desc=%d empty=%d", G<T>::nm(), C.size, n, k, desc, emp);
  S.label(G<T>::nm());
  S.label("ranks" + std::to_string(C.size));
  if(emp) S.label("empty share");
  if(n > 60) S.label("many elements");
  if(C.size > 1 && n > C.size) S.nontrivial();
  if(!C.in()) return;
  int off = 0;
  for(int p = 0; p < C.rank; ++p) off += sh[p];
  std::vector<T> mine(all.begin() + off, all.begin() + off + sh[C.rank]);
  auto srt = all;
  auto ord = [desc](const T& a, const T& b) { return desc ? lt(b, a) : lt(a, b); };
  std::sort(srt.begin(), srt.end(), ord);
  auto eq = [](const T& a, const T& b) { return a == b; };
  for(int kk = allk ? 1 : k; kk <= (allk ? n : k); ++kk) {
    auto d = mine;
    T r = macis::dist_quickselect(d.begin(), d.end(), kk, C.c, ord, eq);
    SOFT(r == srt[kk - 1], "k=%d of %d: not the k-th element of the whole", kk, n);
    auto a = d, b = mine;
    std::sort(a.begin(), a.end(), Lt{}); std::sort(b.begin(), b.end(), Lt{});
    SOFT(a == b, "k=%d of %d: the local data were changed", kk, n);
  }
}
PBT(quickselect, 1600, 40000, "more than one process and more elements than processes") {
  switch(S.below(6)) {
    case 0: qsel<int>(S); break;
    case 1: qsel<double>(S); break;
    case 2: qsel<size_t>(S); break;
    case 3: qsel<float>(S); break;
    case 4: qsel<std::bitset<64>>(S); break;
    default: qsel<std::bitset<128>>(S);
  }
}

template <class T>
void partition_(Src& S) {
  int n = (int)S.integer(0, 40);
  auto v = gen_data<T>(S, n);
  T piv = n && S.coin(3, 4) ? v[S.below(n)] : G<T>::any(S);
  bool desc = S.coin();
  S.note("type=%s n=%d", G<T>::nm(), n);
  if(n > 2) S.nontrivial();
  auto d = v;
  auto ord = [desc](const T& a, const T& b) { return desc ? lt(b, a) : lt(a, b); };
  auto [b, e, g, z] = macis::leg_partition(d.begin(), d.end(), piv, ord, [](const T& a, const T& b) { return a == b; });
  REQ(b == d.begin() && z == d.end() && b <= e && e <= g && g <= z, "range ends");
  for(auto i = b; i != e; ++i) REQ(ord(*i, piv), "less part");
  for(auto i = e; i != g; ++i) REQ(*i == piv, "equal part");
  for(auto i = g; i != z; ++i) REQ(ord(piv, *i), "greater part");
  auto x = v;
  std::sort(x.begin(), x.end(), Lt{}); std::sort(d.begin(), d.end(), Lt{});
  REQ(x == d, "data changed");
}
PBT(leg_partition, 400, 20000, "more than two elements") {
  if(S.coin()) partition_<int>(S); else partition_<double>(S);
}

// reductions: contributions are drawn for all ranks on every rank
template <class T>
void reduce_(Src& S) {
  auto C = gen_comm(S);
  int n = (int)(S.coin(1, 16) ? S.integer(41, 5000) : S.edgy(0, 40)), op = (int)S.below(3), form = (int)S.below(3);
  if(form == 2) n = 1;
  std::vector<std::vector<T>> in(C.size);
  for(auto& v : in) { v.resize(n); for(auto& x : v) x = op == 0 ? (T)S.integer(std::is_signed<T>::value ? -1000 : 0, 1000) : (T)G<T>::any(S); }
  S.note("type=%s ranks=%d n=%d op=%d form=%d", G<T>::nm(), C.size, n, op, form);
  S.label(G<T>::nm());
  S.label(form == 0 ? "send/recv" : form == 1 ? "in place" : "scalar");
  if(C.size > 1 && n) S.nontrivial();
  if(!C.in()) return;
  std::vector<T> want = in[0];
  for(int p = 1; p < C.size; ++p)
    for(int i = 0; i < n; ++i) want[i] = op == 0 ? want[i] + in[p][i] : op == 1 ? std::max(want[i], in[p][i]) : std::min(want[i], in[p][i]);
  MPI_Op o = op == 0 ? MPI_SUM : op == 1 ? MPI_MAX : MPI_MIN;
  auto mine = in[C.rank];
  std::vector<T> out(n + 2, (T)77);
  if(form == 0) {
    macis::allreduce(mine.data(), out.data() + 1, (size_t)n, o, C.c);
    SOFT(mine == in[C.rank], "the send buffer was changed");
  } else if(form == 1) {
    std::copy(mine.begin(), mine.end(), out.begin() + 1);
    macis::allreduce(out.data() + 1, (size_t)n, o, C.c);
  } else out[1] = macis::allreduce(mine[0], o, C.c);
  SOFT(out[0] == (T)77 && out[n + 1] == (T)77, "wrote outside the buffer");
  for(int i = 0; i < n; ++i) SOFT(out[i + 1] == want[i], "element %d of %d op %d", i, n, op);
}
PBT(reductions, 1000, 30000, "more than one process and a non-empty buffer") {
  switch(S.below(4)) {
    case 0: reduce_<int>(S); break;
    case 1: reduce_<double>(S); break;
    case 2: reduce_<size_t>(S); break;
    default: reduce_<float>(S);
  }
}

template <class T>
void bcast_(Src& S) {
  auto C = gen_comm(S);
  int n = (int)(S.coin(1, 16) ? S.integer(41, 3000) : S.edgy(0, 40)), root = (int)S.below(C.size), form = (int)S.below(3);
  std::vector<std::vector<T>> in(C.size);
  for(auto& v : in) v = gen_data<T>(S, n);
  S.note("type=%s ranks=%d n=%d root=%d form=%d", G<T>::nm(), C.size, n, root, form);
  S.label(G<T>::nm());
  if(C.size > 1 && n) S.nontrivial();
  if(!C.in()) return;
  T guard = G<T>::few(3);
  std::vector<T> b(n + 2, guard);
  std::copy(in[C.rank].begin(), in[C.rank].end(), b.begin() + 1);
  if(form == 0) {
    macis::bcast(b.data() + 1, (size_t)n, root, C.c);
  } else if(form == 1) {  // the datatype object itself, moved around
    auto t = macis::mpi_traits<T>::datatype();
    auto t2 = std::move(t);
    std::vector<macis::mpi_datatype> keep;
    keep.emplace_back(std::move(t2));
    MPI_Bcast(b.data() + 1, n, keep[0], root, C.c);
  } else {  // allgather with the typed datatype
    std::vector<T> all(C.size * n + 1, guard);
    auto t = macis::mpi_traits<T>::datatype();
    MPI_Allgather(b.data() + 1, n, t, all.data(), n, t, C.c);
    for(int p = 0; p < C.size; ++p) for(int i = 0; i < n; ++i) SOFT(all[p * n + i] == in[p][i], "gathered element %d of rank %d", i, p);
    SOFT(all.back() == guard, "wrote outside the buffer");
    return;
  }
  SOFT(b[0] == guard && b[n + 1] == guard, "wrote outside the buffer");
  for(int i = 0; i < n; ++i) SOFT(b[i + 1] == in[root][i], "element %d of %d", i, n);
}
PBT(broadcast, 1000, 30000, "more than one process and a non-empty buffer") {
  switch(S.below(8)) {
    case 0: bcast_<int>(S); break;
    case 1: bcast_<double>(S); break;
    case 2: bcast_<size_t>(S); break;
    case 3: bcast_<float>(S); break;
    case 4: bcast_<char>(S); break;
    case 5: bcast_<std::bitset<64>>(S); break;
    case 6: bcast_<std::bitset<128>>(S); break;
    default: bcast_<std::bitset<256>>(S);
  }
}

// messages of up to half a million elements, lengths next to powers of two favoured
template <class T>
void long_(Src& S) {
  auto C = gen_comm(S);
  size_t n = S.coin() ? ((size_t)1 << S.integer(12, 18)) + (size_t)S.integer(0, 2) - 1 : (size_t)S.integer(5000, 500000);
  int what = (int)S.below(4), root = (int)S.below(C.size);
  pbt::Bulk b{S.seed()};
  S.note("type=%s ranks=%d n=%zu %s", G<T>::nm(), C.size, n, what == 0 ? "broadcast" : what == 1 ? "reduction" : what == 2 ? "reduction in place" : "selection");
  if(C.size > 1) S.nontrivial();
  if(!C.in()) return;
  auto val = [&](int p, size_t i) { return (T)(b.u(1000000ull * p + i) % 4001); };
  std::vector<T> in(n + 1), out(n + 1, (T)77);
  in[n] = (T)77;
  for(size_t i = 0; i < n; ++i) in[i] = val(C.rank, i);
  size_t bad = n;
  if(what == 0) {
    macis::bcast(in.data(), n, root, C.c);
    for(size_t i = 0; i < n; ++i) if(in[i] != val(root, i)) { bad = i; break; }
  } else if(what < 3) {
    if(what == 1) macis::allreduce(in.data(), out.data(), n, MPI_SUM, C.c);
    else { out = in; macis::allreduce(out.data(), n, MPI_SUM, C.c); }
    for(size_t i = 0; i < n && bad == n; ++i) { T w = 0; for(int p = 0; p < C.size; ++p) w += val(p, i); if(out[i] != w) bad = i; }
  } else {
    std::vector<T> all;
    for(int p = 0; p < C.size; ++p) for(size_t i = 0; i < n / C.size; ++i) all.push_back(val(p, i));
    in.resize(n / C.size);
    size_t k = 1 + b.u(~0ull) % all.size();
    T r = macis::dist_quickselect(in.begin(), in.end(), (int)k, C.c, std::less<T>{}, std::equal_to<T>{});
    std::nth_element(all.begin(), all.begin() + (k - 1), all.end());
    SOFT(r == all[k - 1], "k=%zu of %zu: not the k-th element", k, all.size());
    return;
  }
  SOFT(bad == n, "element %zu of %zu", bad, n);
  SOFT(in[n] == (T)77 && out[n] == (T)77, "wrote outside the buffer");
}
PBT(long_messages, 60, 1000, "more than one process") {
  switch(S.below(3)) {
    case 0: long_<int>(S); break;
    case 1: long_<double>(S); break;
    default: long_<size_t>(S);
  }
}

// lengths no int can hold: refused before anything is sent, or carried as a whole
template <class T>
void huge_(Src& S, bool reduces) {
  const size_t two = (size_t)1 << 31;
  size_t n = S.coin() ? two * (size_t)S.integer(1, 6) + (size_t)S.integer(-3, 3) : (two - 1) * (size_t)S.integer(1, 6) + (size_t)S.integer(0, 5);
  if(S.coin(1, 4)) n += S.bits64() % (4 * two);
  if(n < two - 1) n = two - 1;
  int form = reduces ? (int)S.below(3) : 0;
  S.note("type=%s n=%zu %s", G<T>::nm(), n, form == 0 ? "broadcast" : form == 1 ? "reduction" : "reduction in place");
  S.nontrivial();
  S.label(n < two ? "the longest int" : "beyond int");
  T *a = (T*)0x100000000000ull, *b = (T*)0x300000000000ull;  // never touched
  std::vector<Call> calls;
  tape = &calls;
  bool threw = false;
  try {
    if(form == 0) macis::bcast(a, n, 0, MPI_COMM_WORLD);
    else if constexpr(std::is_arithmetic_v<T>) {
      if(form == 1) macis::allreduce((const T*)a, b, n, MPI_SUM, MPI_COMM_WORLD);
      else macis::allreduce(b, n, MPI_SUM, MPI_COMM_WORLD);
    }
  } catch(std::exception&) { threw = true; }
  tape = nullptr;
  if(threw) { SOFT(calls.empty(), "refused after %zu messages", calls.size()); S.label("refused"); return; }
  const char* s = form == 1 ? (const char*)a : form == 2 ? (const char*)MPI_IN_PLACE : (const char*)a;
  char* r = form == 0 ? (char*)a : (char*)b;
  size_t done = 0;
  for(auto& c : calls) {
    SOFT(c.count >= 0 && c.size == (int)sizeof(T), "a message of %d elements of %d bytes", c.count, c.size);
    SOFT(c.recv == r + done * sizeof(T) && c.send == (form == 2 ? s : s + done * sizeof(T)), "a message does not start where the previous one ended, at element %zu", done);
    done += c.count;
  }
  SOFT(done == n, "%zu elements are sent", done);
}
PBT(huge_messages, 2000, 40000, "more elements than an int holds") {
  switch(S.below(7)) {
    case 0: huge_<int>(S, true); break;
    case 1: huge_<double>(S, true); break;
    case 2: huge_<size_t>(S, true); break;
    case 3: huge_<float>(S, true); break;
    case 4: huge_<char>(S, false); break;
    case 5: huge_<std::bitset<64>>(S, false); break;
    default: huge_<std::bitset<128>>(S, false);
  }
}

// contiguous user-defined types built from primitive ones
template <class T, int K>
void contig_(Src& S) {
  auto C = gen_comm(S);
  struct R { T x[K]; };
  int n = (int)S.integer(0, 12), root = (int)S.below(C.size);
  std::vector<std::vector<R>> in(C.size, std::vector<R>(n));
  for(auto& v : in) for(auto& r : v) for(auto& x : r.x) x = G<T>::any(S);
  S.note("type=%s[%d] ranks=%d n=%d", G<T>::nm(), K, C.size, n);
  if(C.size > 1 && n) S.nontrivial();
  if(!C.in()) return;
  auto t = macis::make_contiguous_mpi_datatype<T>(K);
  int sz = -1;
  MPI_Type_size(t, &sz);
  SOFT(sz == (int)sizeof(R), "size %d", sz);
  auto b = in[C.rank];
  MPI_Bcast(b.data(), n, t, root, C.c);
  for(int i = 0; i < n; ++i) for(int j = 0; j < K; ++j) SOFT(b[i].x[j] == in[root][i].x[j], "record %d", i);
}
PBT(contiguous_types, 400, 10000, "more than one process and a non-empty buffer") {
  switch(S.below(4)) {
    case 0: contig_<int, 3>(S); break;
    case 1: contig_<double, 2>(S); break;
    case 2: contig_<size_t, 5>(S); break;
    default: contig_<char, 7>(S);
  }
}

template <class T>
void scan_(Src& S) {
  auto C = gen_comm(S);
  std::vector<T> v(C.size);
  int wide = (int)S.below(3);  // sums beyond 32 bits, and fractions where the type has them
  for(auto& x : v) {
    x = S.coin(1, 3) ? (T)0 : (T)S.integer(0, 100000);
    if(std::is_same<T, size_t>::value && wide) x = (T)((size_t)x << (wide == 1 ? 15 : 40));
    if(std::is_same<T, double>::value && wide) x = wide == 1 ? x / 16 : x * 65536 * 65536;
  }
  S.note("type=%s ranks=%d", G<T>::nm(), C.size);
  if(C.size > 1) S.nontrivial();
  SOFT(true, "");
  if(!C.in()) return;
  std::vector<T> g(S.rank % 3, (T)9), s(S.rank % 2, (T)9);
  T tot = macis::total_gather_and_exclusive_scan(v[C.rank], g, s, C.c);
  T run = 0;
  SOFT((int)g.size() == C.size && (int)s.size() == C.size, "sizes");
  if((int)g.size() == C.size && (int)s.size() == C.size)
    for(int p = 0; p < C.size; ++p) { SOFT(g[p] == v[p] && s[p] == run, "entry %d", p); run += v[p]; }
  else for(int p = 0; p < C.size; ++p) run += v[p];
  SOFT(tot == run, "total");
  SOFT(macis::comm_rank(C.c) == C.rank && macis::comm_size(C.c) == C.size, "rank and size");
}
PBT(gather_scan, 500, 10000, "more than one process") {
  switch(S.below(3)) {
    case 0: scan_<int>(S); break;
    case 1: scan_<size_t>(S); break;
    default: scan_<double>(S);
  }
}
