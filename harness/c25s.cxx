// C25, with cereal enabled: archives of sparse matrices round-trip. The archive is the
// harness's own: what is written is read back field by field in the order it was written.
#include "sparsegen.hpp"
using pbt::Src;

struct Out {
  std::vector<unsigned char> s;
  template <class... T> void operator()(T&&... x) { (put(x), ...); }
  template <class T> void put(const T& x) {
    static_assert(std::is_arithmetic_v<T>);
    s.push_back(sizeof(T));
    auto p = (const unsigned char*)&x;
    s.insert(s.end(), p, p + sizeof(T));
  }
  template <class T> void put(const std::vector<T>& v) { put((uint64_t)v.size()); for(auto& x : v) put(x); }
};
struct In {
  std::vector<unsigned char> s;
  size_t at = 0;
  template <class... T> void operator()(T&&... x) { (get(x), ...); }
  template <class T> void get(T& x) {
    static_assert(std::is_arithmetic_v<T>);
    REQ(at < s.size() && s[at] == sizeof(T) && at + 1 + sizeof(T) <= s.size(), "the archive is read differently from how it was written");
    std::memcpy(&x, s.data() + at + 1, sizeof(T));
    at += 1 + sizeof(T);
  }
  template <class T> void get(std::vector<T>& v) {
    uint64_t n;
    get(n);
    REQ(n <= s.size(), "the archive is read differently from how it was written");
    v.resize(n);
    for(auto& x : v) get(x);
  }
};
template <bool EQ, class M>
static void round_trip(const Sp& A, M B, int base, M target) {
  Out out;
  B.serialize(out);
  equal(A, B, base, "the archived matrix");
  auto head = out.s;
  In in{out.s};
  target.serialize(in);
  REQ(in.at == in.s.size(), "%zu bytes of %zu are read back", in.at, in.s.size());
  equal(A, target, base, "read back");
  REQ((int64_t)target.nnz() == (int64_t)A.t.size(), "%lld entries after reading %zu", (long long)target.nnz(), A.t.size());
  if constexpr(EQ) REQ(target == B && !(target != B), "what is read back differs from what was written");
  Out again;
  target.serialize(again);
  REQ(again.s == head, "archived again, the matrix gives another archive");
}
template <class IT>
static void run(Src& S, pbt::Bulk& b) {
  Sp A = S.coin(1, 50) ? gen_hyper(S, b, false) : gen_sp(S, b, false, 16), O = gen_sp(S, b, false, 6);
  int base = (int)S.below(2), kind = (int)S.below(3), other = (int)S.below(2);
  bool fresh = S.coin();
  S.note("base %d, kind %d, %s", base, kind, fresh ? "into a new matrix" : "over another matrix");
  std::vector<size_t> ord(A.t.size()), oo(O.t.size());
  std::iota(ord.begin(), ord.end(), 0);
  std::iota(oo.begin(), oo.end(), 0);
  if(kind == 0) round_trip<true>(A, make_csr<IT>(A, base), base, fresh ? Csr<IT>() : make_csr<IT>(O, other));
  if(kind == 1) round_trip<false>(A, make_csc<IT>(A, base), base, fresh ? Csc<IT>() : make_csc<IT>(O, other));
  if(kind == 2) {
    for(size_t k = ord.size(); k > 1; --k) std::swap(ord[k - 1], ord[b.u(9000000 + k) % k]);
    round_trip<false>(A, make_coo<IT>(A, base, ord), base, fresh ? Coo<IT>() : make_coo<IT>(O, other, oo));
  }
  S.label(kind == 0 ? "compressed rows" : kind == 1 ? "compressed columns" : "coordinates");
  S.nontrivial(A.t.size() > 2 && A.m != A.n);
}
PBT(archives, 4000, 100000, "a rectangular matrix with entries") {
  pbt::Bulk b{S.seed()};
  if(S.coin()) run<int32_t>(S, b); else run<int64_t>(S, b);
}
