// sub-communicators: every MPI case runs on 1..size ranks of the world
#pragma once
#include "pbt.hpp"
// NOMPI: the library is built without MPI (one process, no communicator argument)
#ifdef NOMPI
using MPI_Comm = int;
constexpr MPI_Comm MPI_COMM_SELF = 0, MPI_COMM_WORLD = 1, MPI_COMM_NULL = 2;
#define COMM(x)
struct SubComm {
  MPI_Comm c = MPI_COMM_SELF;
  int rank = 0, size = 1;
  SubComm(int, int, bool) {}
  SubComm(const SubComm&) = delete;
  bool in() const { return true; }
  template <class T>
  std::vector<T> gatherv(const std::vector<T>& x, std::vector<int>* counts = nullptr) const { if(counts) *counts = {(int)x.size()}; return x; }
  bool any(bool b) const { return b; }
};
inline SubComm gen_comm(pbt::Src&, int = 1) { return SubComm(1, 0, false); }
#else
#include <mpi.h>
#define COMM(x) , x

struct SubComm {
  MPI_Comm c = MPI_COMM_NULL;
  int rank = -1, size = 0;
  // k ranks starting at world rank `first`, optionally in reversed order
  SubComm(int k, int first, bool rev) {
    int W = pbt::world().size, r = (pbt::world().rank - first + W) % W;
    MPI_Comm_split(MPI_COMM_WORLD, r < k ? 0 : MPI_UNDEFINED, rev ? W - r : r, &c);
    size = k;
    if(in()) MPI_Comm_rank(c, &rank);
  }
  SubComm(const SubComm&) = delete;
  ~SubComm() { if(in()) MPI_Comm_free(&c); }
  bool in() const { return c != MPI_COMM_NULL; }
  template <class T>
  std::vector<T> gatherv(const std::vector<T>& x, std::vector<int>* counts = nullptr) const {
    int n = (int)(x.size() * sizeof(T));
    std::vector<int> cn(size), off(size, 0);
    MPI_Allgather(&n, 1, MPI_INT, cn.data(), 1, MPI_INT, c);
    for(int i = 1; i < size; ++i) off[i] = off[i - 1] + cn[i - 1];
    std::vector<T> r((off.back() + cn.back()) / sizeof(T));
    static T dummy;
    MPI_Allgatherv(n ? (const void*)x.data() : (const void*)&dummy, n, MPI_BYTE, r.empty() ? (void*)&dummy : (void*)r.data(), cn.data(), off.data(), MPI_BYTE, c);
    if(counts) { counts->clear(); for(int v : cn) counts->push_back(v / (int)sizeof(T)); }
    return r;
  }
  // true on every rank iff true anywhere
  bool any(bool b) const {
    int x = b, y;
    MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, c);
    return y;
  }
};
inline SubComm gen_comm(pbt::Src& S, int kmin = 1) {
  int W = pbt::world().size;
  int k = (int)S.integer(kmin, W), first = (int)S.below(W);
  bool rev = S.coin(1, 4);
  return SubComm(k, first, rev);
}
#endif
