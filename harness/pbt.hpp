// Choice-sequence property-based testing: generation, recording, shrinking,
// replay.  See DESIGN.md.  Independent of the code under test.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#ifdef PBT_MPI
#include <mpi.h>
#endif

namespace pbt {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix(h);
}

struct Fail {
  std::string msg;
};
struct Discard {};

inline std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---- shared log: survives a crash of this process --------------------------
struct Log {
  static constexpr size_t CAP = 1 << 20;
  struct Hdr {
    char magic[8];
    char test[120];
    uint64_t case_no, n, started, in_case;
  };
  Hdr* h = nullptr;
  uint64_t* data = nullptr;
  void open(const std::string& path) {
    if(path.empty()) return;
    int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if(fd < 0) return;
    size_t sz = sizeof(Hdr) + CAP * 8;
    if(ftruncate(fd, sz)) return;
    void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    if(p == MAP_FAILED) return;
    h = (Hdr*)p;
    data = (uint64_t*)(h + 1);
    memcpy(h->magic, "PBTLOG1", 8);
  }
  void begin(const std::string& t, uint64_t c) {
    if(!h) return;
    snprintf(h->test, sizeof h->test, "%s", t.c_str());
    h->case_no = c;
    h->n = 0;
    h->in_case = 1;
  }
  void push(uint64_t v) {
    if(h && h->n < CAP) {
      data[h->n] = v;
      h->n = h->n + 1;
    }
  }
  void end() {
    if(h) h->in_case = 0;
  }
};
inline Log& log() {
  static Log l;
  return l;
}

class Src {
  uint64_t s_ = 0;
  const std::vector<uint64_t>* rep_ = nullptr;
  size_t pos_ = 0;

 public:
  std::vector<uint64_t> rec;
  bool nontriv = false;
  std::vector<std::string> labels;
  std::string desc;
  std::vector<std::string> soft;  // failures noted without leaving the test
  int rank = 0, size = 1;

  explicit Src(uint64_t seed) : s_(seed) {}
  explicit Src(const std::vector<uint64_t>* r) : rep_(r) {}

  uint64_t below(uint64_t n) {
    if(n <= 1) return 0;
    uint64_t v;
    if(rep_) {
      v = pos_ < rep_->size() ? (*rep_)[pos_] : 0;
      if(v >= n) v = n - 1;
    } else {
      s_ += 0x9e3779b97f4a7c15ull;
      v = (uint64_t)(((unsigned __int128)mix(s_) * n) >> 64);
    }
    ++pos_;
    rec.push_back(v);
    log().push(v);
    return v;
  }
  int64_t integer(int64_t lo, int64_t hi) {
    if(hi <= lo) return lo;
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  // like integer, but biased to the two ends and small values
  int64_t edgy(int64_t lo, int64_t hi) {
    switch(below(6)) {
      case 0: return integer(lo, std::min(hi, lo + 2));
      case 1: return hi - integer(0, std::min<int64_t>(hi - lo, 2));
      default: return integer(lo, hi);
    }
  }
  bool coin(int num = 1, int den = 2) { return (int)below(den) >= den - num; }
  uint64_t bits64() {
    uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
    return (hi << 32) | lo;
  }
  uint64_t seed() { return below(1ull << 31); }
  // real in [-1,1], shrinks to 0
  double real() {
    uint64_t k = below(1ull << 33);
    double m = (double)(k >> 1) / 4294967296.0;
    return (k & 1) ? -m : m;
  }
  double real(double lo, double hi) {
    return lo + (hi - lo) * ((double)below(1ull << 32) / 4294967295.0);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T oneof(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  std::vector<size_t> perm(size_t n) {
    std::vector<size_t> p(n);
    for(size_t i = 0; i < n; ++i) p[i] = i;
    for(size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + below(n - i)]);
    return p;
  }
  void nontrivial(bool b = true) {
    if(b) nontriv = true;
  }
  void label(const std::string& l) { labels.push_back(l); }
  void note(const char* f, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if(desc.size() < 1200) {
      if(!desc.empty()) desc += " ";
      desc += buf;
    }
  }
  void soft_fail(const std::string& m) {
    if(soft.size() < 20) soft.push_back(m);
  }
};

// Counter-based numbers for bulk data: value i of stream `seed`.
struct Bulk {
  uint64_t seed;
  uint64_t u(uint64_t i) const { return mix(seed * 0x2545F4914F6CDD1Dull + mix(i)); }
  double unit(uint64_t i) const { return (u(i) >> 11) * (1.0 / 9007199254740992.0); }
  double sym(uint64_t i) const { return 2 * unit(i) - 1; }
};

struct Test {
  std::string name, rule;
  uint64_t quick, thorough;
  std::function<void(Src&)> body;
};
inline std::vector<Test>& tests() {
  static std::vector<Test> t;
  return t;
}
struct Reg {
  Reg(const char* n, uint64_t q, uint64_t t, const char* rule,
      std::function<void(Src&)> f) {
    tests().push_back({n, rule, q, t, std::move(f)});
  }
};
// PBT(name, quick cases, thorough cases, "what makes a case non-trivial") {...}
#define PBT(NAME, Q, T, RULE)                                  \
  static void pbt_test_##NAME(pbt::Src&);                      \
  static pbt::Reg pbt_reg_##NAME(#NAME, Q, T, RULE, pbt_test_##NAME); \
  static void pbt_test_##NAME(pbt::Src& S)

#define REQ(COND, ...)                                                       \
  do {                                                                       \
    if(!(COND))                                                              \
      throw pbt::Fail{std::string(#COND " : ") + pbt::fmt("" __VA_ARGS__) +  \
                      pbt::fmt(" [%s:%d]", __FILE__, __LINE__)};             \
  } while(0)
// for MPI tests: note the failure, keep going so that ranks stay in step
#define SOFT(COND, ...)                                                      \
  do {                                                                       \
    if(!(COND))                                                              \
      S.soft_fail(std::string(#COND " : ") + pbt::fmt("" __VA_ARGS__) +      \
                  pbt::fmt(" [%s:%d]", __FILE__, __LINE__));                 \
  } while(0)

inline bool close(double a, double b, double tol) {
  if(std::isnan(a) || std::isnan(b)) return false;
  if(a == b) return true;
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}

// ------------------------------------------------------------------- runner
struct Outcome {
  int state = 0;  // 0 pass, 1 fail, 2 discard
  std::string msg;
};

struct Cfg {
  uint64_t seed = 1;
  int worker = 0, nworkers = 1;
  double mult = 1, cap = 1e9, shrink = 30, hang = 60;
  bool thorough = false;
  std::string out, logf, replay, only, exclude;
  uint64_t force_cases = 0;
};

struct Watch {
  std::atomic<long> last{0};
  static long now() {
    return (long)std::chrono::duration_cast<std::chrono::milliseconds>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
  }
  void kick() { last = now(); }
  void start(double secs) {
    kick();
    std::thread([this, secs] {
      for(;;) {
        std::this_thread::sleep_for(std::chrono::milliseconds(200));
        if(now() - last.load() > secs * 1000) {
          fprintf(stderr, "PBT-HANG: no progress in one case for %g s\n", secs);
          fflush(stderr);
          _exit(97);
        }
      }
    }).detach();
  }
};
inline Watch& watch() {
  static Watch w;
  return w;
}

struct Mpi {
  int rank = 0, size = 1;
};
inline Mpi& world() {
  static Mpi m;
  return m;
}

inline Outcome run_one(const Test& t, Src& s, uint64_t case_no) {
  watch().kick();
  log().begin(t.name, case_no);
  s.rank = world().rank;
  s.size = world().size;
  Outcome o;
  try {
    t.body(s);
    if(!s.soft.empty()) {
      o.state = 1;
      o.msg = s.soft[0];
    }
  } catch(const Fail& f) {
    o.state = 1;
    o.msg = f.msg;
  } catch(const Discard&) {
    o.state = 2;
  } catch(const std::exception& e) {
    o.state = 1;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch(const char* e) {
    o.state = 1;
    o.msg = std::string("unexpected exception (const char*): ") + e;
  } catch(const std::string& e) {
    o.state = 1;
    o.msg = std::string("unexpected exception (string): ") + e;
  } catch(...) {
    o.state = 1;
    o.msg = "unexpected exception of unknown type";
  }
#ifdef PBT_MPI
  {
    int st[2] = {o.state == 1, o.state == 2}, g[2];
    MPI_Allreduce(st, g, 2, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if(g[0]) {
      // message of the lowest failing rank
      int r = o.state == 1 ? world().rank : world().size, rr;
      MPI_Allreduce(&r, &rr, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
      char buf[1024] = {0};
      if(world().rank == rr)
        snprintf(buf, sizeof buf, "[rank %d] %s", rr, o.msg.c_str());
      MPI_Bcast(buf, sizeof buf, MPI_CHAR, rr, MPI_COMM_WORLD);
      o.msg = buf;
      o.state = 1;
    } else if(g[1])
      o.state = 2;
  }
#endif
  log().end();
  watch().kick();
  return o;
}

inline void write_replay(const std::string& path, const Test& t, const Cfg& c,
                         uint64_t case_no, const std::vector<uint64_t>& ch,
                         const std::string& msg, const std::string& desc) {
  if(world().rank) return;
  std::string tmp = path + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if(!f) return;
  std::string m = msg, d = desc;
  for(auto& x : m)
    if(x == '\n') x = ' ';
  for(auto& x : d)
    if(x == '\n') x = ' ';
  fprintf(f, "pbt-replay 1\ntest %s\nseed %llu\ncase %llu\nmessage %s\ninput %s\nchoices %zu\n",
          t.name.c_str(), (unsigned long long)c.seed,
          (unsigned long long)case_no, m.c_str(), d.c_str(), ch.size());
  for(size_t i = 0; i < ch.size(); ++i)
    fprintf(f, "%llu%c", (unsigned long long)ch[i], i % 16 == 15 ? '\n' : ' ');
  fprintf(f, "\n");
  fclose(f);
  rename(tmp.c_str(), path.c_str());
}

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if(c < 32)
      r += ' ';
    else if(c > 126)
      r += '?';
    else
      r += c;
  }
  return r + "\"";
}

inline bool agree(bool b) {
#ifdef PBT_MPI
  int x = b, y;
  MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return y;
#else
  return b;
#endif
}

// Shrinks `best` (known to fail); saves every improvement.
inline void shrink(const Test& t, const Cfg& c, uint64_t case_no,
                   std::vector<uint64_t>& best, std::string& msg,
                   std::string& desc, const std::string& path) {
  auto t0 = Watch::now();
  auto over = [&] { return agree(Watch::now() - t0 > c.shrink * 1000); };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    Src s(&cand);
    auto o = run_one(t, s, case_no);
    if(o.state != 1) return false;
    // accept only if simpler (shortlex)
    if(s.rec.size() > best.size() || (s.rec.size() == best.size() && !(s.rec < best)))
      return false;
    best = s.rec;
    msg = o.msg;
    desc = s.desc;
    write_replay(path, t, c, case_no, best, msg, desc);
    return true;
  };
  bool improved = true;
  while(improved && !over()) {
    improved = false;
    for(size_t k : {64, 32, 16, 8, 4, 2, 1}) {
      for(size_t i = 0; i + k <= best.size() && !over();) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if(attempt(cand))
          improved = true;
        else
          i += k > 4 ? k / 2 : 1;
      }
    }
    for(size_t k : {16, 4, 1})
      for(size_t i = 0; i + k <= best.size() && !over(); i += k) {
        auto cand = best;
        bool any = false;
        for(size_t j = i; j < i + k; ++j) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if(any && attempt(cand)) improved = true;
      }
    for(size_t i = 0; i < best.size() && !over(); ++i) {
      if(!best[i]) continue;
      uint64_t lo = 0, hi = best[i];
      while(lo < hi && !over()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best;
        if(i >= cand.size()) break;
        cand[i] = mid;
        if(attempt(cand)) {
          improved = true;
          if(i >= best.size()) break;
          hi = best[i];
        } else
          lo = mid + 1;
      }
    }
  }
}

inline int main_impl(int argc, char** argv) {
  Cfg c;
  bool plan = false;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--seed") c.seed = std::stoull(val());
    else if(a == "--worker") c.worker = std::stoi(val());
    else if(a == "--nworkers") c.nworkers = std::stoi(val());
    else if(a == "--mult") c.mult = std::stod(val());
    else if(a == "--cap") c.cap = std::stod(val());
    else if(a == "--shrink") c.shrink = std::stod(val());
    else if(a == "--hang") c.hang = std::stod(val());
    else if(a == "--thorough") c.thorough = true;
    else if(a == "--out") c.out = val();
    else if(a == "--log") c.logf = val();
    else if(a == "--replay") c.replay = val();
    else if(a == "--test") c.only = val();
    else if(a == "--cases") c.force_cases = std::stoull(val());
    else if(a == "--plan") plan = true;
    else if(a == "--list") {
      for(auto& t : tests()) printf("%s\n", t.name.c_str());
      return 0;
    }
  }
  if(!c.logf.empty() && world().rank == 0) log().open(c.logf);
  watch().start(c.hang);

  auto count = [&](const Test& t) {
    uint64_t n = (uint64_t)std::ceil((c.thorough ? t.thorough : t.quick) * c.mult);
    return c.force_cases ? c.force_cases : n;
  };
  auto source = [&](const Test& t, uint64_t i) { return Src(mix(mix(c.seed) ^ hash_str(t.name) ^ mix(i * 2 + 1))); };
  if(plan) {  // number of cases of every test, in the order they run
    for(auto& t : tests())
      if((c.only.empty() || t.name == c.only) && world().rank == 0)
        printf("PLAN %s %llu\n", t.name.c_str(), (unsigned long long)count(t));
    return 0;
  }

  if(!c.replay.empty()) {
    FILE* f = fopen(c.replay.c_str(), "r");
    if(!f) return 2;
    char line[1 << 16];
    std::string tn;
    if(fgets(line, sizeof line, f) && !strncmp(line, "pbt-history", 11)) {
      // a history of cases in one process: "seed S", then "run TEST FIRST STRIDE COUNT"
      while(fgets(line, sizeof line, f)) {
        unsigned long long a, b, n;
        char name[256];
        if(sscanf(line, "seed %llu", &a) == 1) c.seed = a;
        if(sscanf(line, "run %255s %llu %llu %llu", name, &a, &b, &n) != 4) continue;
        for(auto& t : tests())
          if(t.name == name)
            for(uint64_t k = 0; k < n; ++k) {
              Src s = source(t, a + k * b);
              auto o = run_one(t, s, a + k * b);
              if(o.state != 1) continue;
              if(world().rank == 0)
                printf("REPLAY-FAIL %s\nmessage %s\ninput %s\n", name, o.msg.c_str(), s.desc.c_str());
              fflush(stdout);
              fclose(f);
              return 1;
            }
      }
      fclose(f);
      if(world().rank == 0) printf("REPLAY-PASS history\n");
      return 0;
    }
    std::vector<uint64_t> ch;
    size_t n = 0;
    while(fgets(line, sizeof line, f)) {
      if(!strncmp(line, "test ", 5)) {
        tn = line + 5;
        while(!tn.empty() && isspace((unsigned char)tn.back())) tn.pop_back();
      }
      if(!strncmp(line, "choices ", 8)) {
        n = std::stoull(line + 8);
        break;
      }
    }
    unsigned long long v;
    while(ch.size() < n && fscanf(f, "%llu", &v) == 1) ch.push_back(v);
    fclose(f);
    for(auto& t : tests())
      if(t.name == tn) {
        Src s(&ch);
        auto o = run_one(t, s, 0);
        if(world().rank == 0) {
          if(o.state == 1)
            printf("REPLAY-FAIL %s\nmessage %s\ninput %s\n", tn.c_str(), o.msg.c_str(), s.desc.c_str());
          else
            printf("REPLAY-PASS %s state=%d\n", tn.c_str(), o.state);
        }
        fflush(stdout);
        return o.state == 1 ? 1 : 0;
      }
    return 2;
  }

  auto t0 = Watch::now();
  struct Stat {
    uint64_t cases = 0, discards = 0, planned = 0;
    std::unordered_set<uint64_t> nontriv;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    long ms = 0;
  };
  std::map<std::string, Stat> st;
  bool capped = false, failed = false;
  std::string ftest, fmsg, fdesc, frep;
  uint64_t fcase = 0;
  for(auto& t : tests()) {
    if(!c.only.empty() && t.name != c.only) continue;
    if(failed) break;
    auto& s = st[t.name];
    uint64_t n = count(t);
    s.planned = 0;
    auto tt = Watch::now();
    for(uint64_t i = c.worker; i < n; i += c.nworkers) {
      ++s.planned;
      if(capped) continue;
      if(((i / c.nworkers) & 15) == 0 && agree(Watch::now() - t0 > c.cap * 1000)) {
        capped = true;
        continue;
      }
      Src src = source(t, i);
      auto o = run_one(t, src, i);
      ++s.cases;
      if(o.state == 2) {
        ++s.discards;
        continue;
      }
      for(auto& l : src.labels) ++s.labels[l];
      if(src.nontriv) {
        uint64_t h = 7;
        for(auto v : src.rec) h = mix(h ^ v);
        s.nontriv.insert(h);
        if(s.samples.size() < 2 && !src.desc.empty()) s.samples.push_back(src.desc);
      }
      if(o.state == 1) {
        failed = true;
        ftest = t.name;
        fmsg = o.msg;
        fdesc = src.desc;
        fcase = i;
        frep = c.out + ".replay";
        auto best = src.rec;
        write_replay(frep, t, c, i, best, fmsg, fdesc);
        shrink(t, c, i, best, fmsg, fdesc, frep);
        break;
      }
    }
    s.ms = Watch::now() - tt;
  }
  if(world().rank == 0 && !c.out.empty()) {
    FILE* f = fopen(c.out.c_str(), "w");
    if(!f) return 2;
    fprintf(f, "{\"capped\":%s,\"failed\":%s", capped ? "true" : "false",
            failed ? "true" : "false");
    if(failed)
      fprintf(f, ",\"test\":%s,\"message\":%s,\"input\":%s,\"case\":%llu,\"replay\":%s",
              jstr(ftest).c_str(), jstr(fmsg).c_str(), jstr(fdesc).c_str(),
              (unsigned long long)fcase, jstr(frep).c_str());
    fprintf(f, ",\"tests\":{");
    bool first = true;
    for(auto& t : tests()) {
      if(!st.count(t.name)) continue;
      auto& s = st[t.name];
      fprintf(f, "%s%s:{\"rule\":%s,\"planned\":%llu,\"cases\":%llu,\"discards\":%llu,\"ms\":%ld,\"nontrivial\":[",
              first ? "" : ",", jstr(t.name).c_str(), jstr(t.rule).c_str(),
              (unsigned long long)s.planned, (unsigned long long)s.cases,
              (unsigned long long)s.discards, s.ms);
      first = false;
      bool f1 = true;
      for(auto h : s.nontriv) {
        fprintf(f, "%s\"%llx\"", f1 ? "" : ",", (unsigned long long)h);
        f1 = false;
      }
      fprintf(f, "],\"labels\":{");
      f1 = true;
      for(auto& [k, v] : s.labels) {
        fprintf(f, "%s%s:%llu", f1 ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
        f1 = false;
      }
      fprintf(f, "},\"samples\":[");
      f1 = true;
      for(auto& x : s.samples) {
        fprintf(f, "%s%s", f1 ? "" : ",", jstr(x).c_str());
        f1 = false;
      }
      fprintf(f, "]}");
    }
    fprintf(f, "}}\n");
    fclose(f);
  }
  return failed ? 1 : 0;
}

}  // namespace pbt

#ifdef PBT_MAIN
extern "C" void __gcov_dump() __attribute__((weak));
int main(int argc, char** argv) {
#ifdef PBT_MPI
  int prov;
  MPI_Init_thread(&argc, &argv, MPI_THREAD_SERIALIZED, &prov);
  MPI_Comm_rank(MPI_COMM_WORLD, &pbt::world().rank);
  MPI_Comm_size(MPI_COMM_WORLD, &pbt::world().size);
#endif
  int rc = pbt::main_impl(argc, argv);
  fflush(stdout);
  fflush(stderr);
#ifdef PBT_MPI
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
#endif
  if(__gcov_dump) __gcov_dump();  // coverage builds, development only
  _exit(rc);
}
#endif
