// Scenario driver: executes a script of calls on Apollo's public API and writes
// an event log at the client boundary. One response line per command:
//   <line> <payload>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#ifdef ENABLE_MPI
#include <mpi.h>
#endif

#include "apollo/Apollo.h"
#include "apollo/Config.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/PolicyModel.h"
#include "apollo/Region.h"
#include "apollo/Timer.h"
#include "envctl.h"
#ifdef DRV_ASYNC
#include "evstub.h"
#endif

static int ofd = -1;
static std::string obuf;
static void flush_out()
{
  size_t o = 0;
  while (o < obuf.size()) {
    ssize_t n = write(ofd, obuf.data() + o, obuf.size() - o);
    if (n <= 0) _exit(97);
    o += n;
  }
  obuf.clear();
}
void drv_log(const char *fmt, ...)
{
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  obuf += b;
  if (ofd >= 0) flush_out();
}
static int lineno = 0;
static void emit(const std::string &s)
{
  obuf += std::to_string(lineno) + " " + s + "\n";
  flush_out();
}
static std::string unesc(const std::string &s)
{
  if (s == "-") return "";
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += s[i];
  return r;
}
static std::string hexd(double v)
{
  char b[64];
  snprintf(b, sizeof b, "%a", v);
  return b;
}

struct Tok {
  std::vector<std::string> t;
  size_t i = 0;
  bool more() const { return i < t.size(); }
  std::string s()
  {
    if (i >= t.size()) { fprintf(stderr, "DRIVER: missing token line %d\n", lineno); _exit(98); }
    return t[i++];
  }
  std::string u() { return unesc(s()); }
  long l() { return strtol(s().c_str(), nullptr, 10); }
  double d() { return strtod(s().c_str(), nullptr); }
  float f() { return strtof(s().c_str(), nullptr); }
  std::vector<float> rest()
  {
    std::vector<float> v;
    while (more()) v.push_back(f());
    return v;
  }
};

static std::map<std::string, Apollo::Region *> R;
static std::map<std::string, Apollo::RegionContext *> C;
static std::map<std::string, std::unique_ptr<apollo::PolicyModel>> M;
static std::map<std::string, Apollo::Dataset> D;

#ifdef DRV_ASYNC
static std::map<std::string, int> L;
#endif

template <class Mp>
static typename Mp::mapped_type &at(Mp &m, const std::string &k)
{
  auto it = m.find(k);
  if (it == m.end()) { fprintf(stderr, "DRIVER: no handle %s line %d\n", k.c_str(), lineno); _exit(98); }
  return it->second;
}

static void dump(Apollo::Dataset &d)
{
  auto v = d.toVectorOfTuples();
  std::string s = "ds " + std::to_string(d.size()) + " " + std::to_string(v.size());
  for (auto &t : v) {
    s += " | " + std::to_string(std::get<1>(t)) + " " + hexd(std::get<2>(t));
    for (float f : std::get<0>(t)) s += " " + hexd(f);
  }
  emit(s);
}

// A user-supplied timer, as an application may install on a context.
struct UserTimer : public Apollo::Timer {
  int polls_needed, polls = 0, starts = 0, stops = 0;
  double value;
  UserTimer(int p, double v) : polls_needed(p), value(v) {}
  void start() override { ++starts; }
  void stop() override { ++stops; polls = 0; }
  bool isDone(double &m) override
  {
    if (++polls <= polls_needed) return false;
    m = value;
    return true;
  }
};

// One whole execution; successive ones rotate through the equivalent ways the API
// offers to announce features, ask for the policy and end with a metric.
static int api_style = 0;
template <class F>
static int execute(Apollo::Region *r, const std::vector<float> &v, F metric)
{
  int p = -1;
  switch (api_style++ % 5) {
    case 0:
    case 3: {
      auto *c = r->begin(v);
      p = r->getPolicyIndex(c);
      r->end(c, metric(p));
      break;
    }
    case 1: {
      auto *c = r->begin();
      for (float f : v) r->setFeature(c, f);
      p = r->getPolicyIndex(c);
      r->end(c, metric(p));
      break;
    }
    case 2: {
      r->begin();
      for (float f : v) r->setFeature(f);
      p = r->getPolicyIndex();
      r->end(metric(p));
      break;
    }
    case 4: {
      __apollo_region_begin(r);
      for (float f : v) __apollo_region_set_feature(r, f);
      p = __apollo_region_get_policy(r);
      r->end(metric(p));
      break;
    }
  }
  return p;
}

// Call sites of getCallpathOffset, with the driver's own record of the stack.
static struct { void *bt[128]; int n; std::string id; Apollo *a; } cp;
typedef void (*cp_leaf_t)(int, int);
extern "C" {
#define CP_LEAF(K) \
  __attribute__((noinline)) void cp_leaf##K(int w, int second) \
  { \
    cp.n = backtrace(cp.bt, 128); \
    if (second) cp.id = cp.a->getCallpathOffset(w); \
    else cp.id = (w == 2 && K == 0) ? cp.a->getCallpathOffset() : cp.a->getCallpathOffset(w); \
    asm volatile("" ::: "memory"); \
  }
CP_LEAF(0)
CP_LEAF(1)
CP_LEAF(2)
#define CP_MID(K) \
  __attribute__((noinline)) void cp_mid##K(cp_leaf_t leaf, int d, int w, int second) \
  { \
    if (d > 0) cp_mid##K(leaf, d - 1, w, second); \
    else leaf(w, second); \
    asm volatile("" ::: "memory"); \
  }
CP_MID(0)
CP_MID(1)
}
// cps LEAF SECOND MID DEPTH W LIB: LIB is a shared library with further frames, or -
static std::string cp_run(Tok &t)
{
  static const cp_leaf_t leafs[] = {cp_leaf0, cp_leaf1, cp_leaf2};
  cp_leaf_t leaf = leafs[t.l()];
  int second = t.l(), mid = t.l(), depth = t.l(), w = t.l();
  std::string lib = t.u();
  auto *f = mid ? cp_mid1 : cp_mid0;
  cp.a = Apollo::instance();
  if (lib == "") f(leaf, depth, w, second);
  else {
    void *h = dlopen(lib.c_str(), RTLD_NOW);
    auto *g = h ? (void (*)(void *, cp_leaf_t, int, int, int))dlsym(h, "cp_via") : nullptr;
    if (!g) { fprintf(stderr, "DRIVER: %s\n", dlerror()); _exit(98); }
    g((void *)f, leaf, depth, w, second);
  }
  // the frame asked for, as the driver saw it: index 0 is the leaf itself
  void *want = w - 2 < cp.n ? cp.bt[w - 2] : nullptr;
  Dl_info di;
  const char *mod = "?", *b;
  if (want && dladdr(want, &di) && di.dli_fname) mod = (b = strrchr(di.dli_fname, '/')) ? b + 1 : di.dli_fname;
  char buf[64];
  snprintf(buf, sizeof buf, "%p", want);
  size_t at_ = cp.id.rfind("@0x");
  void *got = at_ == std::string::npos ? nullptr : (void *)strtoull(cp.id.c_str() + at_ + 1, 0, 16);
  bool in = got && dladdr((char *)got - 1, &di) && di.dli_saddr == (void *)leaf;
  return "cp " + std::to_string(cp.n) + "\t" + buf + "\t" + mod + "\t" + (in ? "1" : "0") + "\t" + cp.id;
}

static int run(const std::string &cmd, Tok &t)
{
  if (cmd == "env") { auto k = t.u(); auto v = t.u(); setenv(k.c_str(), v.c_str(), 1); }
  else if (cmd == "unenv") { unsetenv(t.u().c_str()); }
  else if (cmd == "chdir") { if (chdir(t.u().c_str())) _exit(96); }
  else if (cmd == "instance") { Apollo *a = Apollo::instance(); emit("inst " + std::to_string(a->mpiRank) + " " + std::to_string(a->mpiSize)); }
  else if (cmd == "region") {
    auto h = t.s(); int nf = t.l(), np = t.l(), mt = t.l();
    auto name = t.u(), mi = t.u(), y = t.u();
    Apollo::Region *r;
    if (y.empty() && mi.empty() && mt == 0) r = new Apollo::Region(nf, name.c_str(), np);
    else if (y.empty()) r = new Apollo::Region(nf, name.c_str(), np, mt, mi);
    else r = new Apollo::Region(nf, name.c_str(), np, mt, mi, y);
    R[h] = r;
    emit("ok");
  } else if (cmd == "cregion") {
    auto h = t.s(); int nf = t.l(), np = t.l(), mt = t.l();
    auto name = t.u(), mi = t.u();
    R[h] = (Apollo::Region *)__apollo_region_create(nf, name.c_str(), np, mt, mi.c_str());
    emit("ok");
  }
  else if (cmd == "begin") { auto h = t.s(), c = t.s(); C[c] = at(R, h)->begin(); emit("idx " + std::to_string(C[c]->idx)); }
  else if (cmd == "beginv") { auto h = t.s(), c = t.s(); auto v = t.rest(); C[c] = at(R, h)->begin(v); emit("idx " + std::to_string(C[c]->idx)); }
  else if (cmd == "begintk") {
    auto h = t.s(), c = t.s(), k = t.s();
    auto tk = k == "cuda" ? Apollo::Region::TIMING_CUDA_ASYNC : k == "hip" ? Apollo::Region::TIMING_HIP_ASYNC : Apollo::Region::TIMING_SYNC;
    C[c] = at(R, h)->begin(tk);
    emit("idx " + std::to_string(C[c]->idx));
  }
  else if (cmd == "utimer") { auto c = t.s(); int p = t.l(); double v = t.d(); at(C, c)->timer = std::unique_ptr<Apollo::Timer>(new UserTimer(p, v)); at(C, c)->timer->start(); }
#ifdef DRV_ASYNC
  else if (cmd == "atimer") {
    auto c = t.s(), k = t.s();
    at(C, c)->timer = k == "cuda" ? Apollo::Timer::create<Apollo::Timer::CudaAsync>() : Apollo::Timer::create<Apollo::Timer::HipAsync>();
    at(C, c)->timer->start();
  }
  else if (cmd == "evdone") { int k = t.l(); double ms = t.d(); evstub::complete(k, (float)ms); }
  else if (cmd == "evdonec") { int k = at(L, t.s()); double ms = t.d(); evstub::complete(k, (float)ms); }
  else if (cmd == "evdrain") { int polls = t.l(); evstub::drain_polls = polls; }
  else if (cmd == "evms") { int k = t.l(); double ms = t.d(); evstub::plan(k, (float)ms); }
  else if (cmd == "evstat") { emit("ev " + evstub::stat()); }
#endif
  else if (cmd == "feat") { auto h = t.s(), c = t.s(); at(R, h)->setFeature(at(C, c), t.f()); }
  else if (cmd == "featd") { auto h = t.s(); at(R, h)->setFeature(t.f()); }
  else if (cmd == "pol") { auto h = t.s(), c = t.s(); emit("p " + std::to_string(at(R, h)->getPolicyIndex(at(C, c)))); }
  else if (cmd == "pold") { auto h = t.s(); emit("p " + std::to_string(at(R, h)->getPolicyIndex())); }
  else if (cmd == "end" || cmd == "endcur") {
    auto h = t.s(), c = t.s();
    auto *r = at(R, h);
    auto end = [&] { if (cmd == "end") r->end(at(C, c)); else r->end(); };
#ifdef DRV_ASYNC
    // the stop event of this execution is the first one recorded by end()
    int rec = evstub::records();
    L[c] = rec;
    end();
    emit("ok " + std::to_string(evstub::records() > rec ? rec : -1));
#else
    end();
    emit("ok");
#endif
  }
  else if (cmd == "endm") { auto h = t.s(), c = t.s(); at(R, h)->end(at(C, c), t.d()); emit("ok"); }
  else if (cmd == "endd") { auto h = t.s(); at(R, h)->end(); emit("ok"); }
  else if (cmd == "enddm") { auto h = t.s(); at(R, h)->end(t.d()); emit("ok"); }
  else if (cmd == "cbegin") { __apollo_region_begin(at(R, t.s())); }
  else if (cmd == "cfeat") { auto h = t.s(); __apollo_region_set_feature(at(R, h), t.f()); }
  else if (cmd == "cpol") { emit("p " + std::to_string(__apollo_region_get_policy(at(R, t.s())))); }
  else if (cmd == "cend") { __apollo_region_end(at(R, t.s())); emit("ok"); }
  else if (cmd == "ctrain") { auto h = t.s(); __apollo_region_train(at(R, h), t.l()); emit("ok"); }
  else if (cmd == "x") {  // x H metric f...: whole execution with a supplied metric
    auto h = t.s(); double m = t.d(); auto v = t.rest();
    emit("p " + std::to_string(execute(at(R, h), v, [&](int) { return m; })));
  } else if (cmd == "xt") {  // xt H f... | n0 n1 ...: metric depends on the selected policy
    auto h = t.s(); int nf = t.l();
    std::vector<float> v; for (int i = 0; i < nf; ++i) v.push_back(t.f());
    std::vector<double> m; while (t.more()) m.push_back(t.d());
    emit("p " + std::to_string(execute(at(R, h), v, [&](int p) { return (p >= 0 && p < (int)m.size()) ? m[p] : 1e9; })));
  } else if (cmd == "qx") {  // qx H k n metric f...: k vectors of n features, one whole execution each
    auto h = t.s(); int k = t.l(), n = t.l(); double m = t.d();
    std::string s = "s";
    for (int i = 0; i < k; ++i) {
      std::vector<float> v;
      for (int j = 0; j < n; ++j) v.push_back(t.f());
      s += " " + std::to_string(execute(at(R, h), v, [&](int) { return m; }));
    }
    emit(s);
  }
  else if (cmd == "train") { int s = t.l(); if (t.more()) Apollo::instance()->train(s, t.l() != 0); else Apollo::instance()->train(s); emit("ok"); }
  else if (cmd == "flush") { Apollo::instance()->flushAllRegionMeasurements(t.l()); emit("ok"); }
  else if (cmd == "rtrain") { auto h = t.s(); int s = t.l(); bool c = t.l(), f = t.l(); at(R, h)->train(s, c, f); emit("ok"); }
  else if (cmd == "collect") { at(R, t.s())->collectPendingContexts(); emit("ok"); }
  else if (cmd == "dump") { dump(at(R, t.s())->dataset); }
  else if (cmd == "rins") { auto h = t.s(); int p = t.l(); double m = t.d(); auto v = t.rest(); at(R, h)->dataset.insert(v, p, m); }
  else if (cmd == "rclr") { at(R, t.s())->dataset.clear(); }
  else if (cmd == "tr") { emit(std::string("t ") + (at(R, t.s())->model->isTrainable() ? "1" : "0")); }
  else if (cmd == "info") {
    auto *r = at(R, t.s());
    emit("info " + std::to_string(r->idx) + " " + std::to_string(r->num_features) + " " + std::to_string(r->num_policies) + " " + std::to_string(strlen(r->name)));
  }
  else if (cmd == "mstore") { auto h = t.s(); at(R, h)->model->store(t.u()); emit("ok"); }
  else if (cmd == "mload") { auto h = t.s(); at(R, h)->model->load(t.u()); emit("ok"); }
  else if (cmd == "q" || cmd == "mq") {  // q H k n f...: k vectors of n features, one selection each
    auto h = t.s(); int k = t.l(), n = t.l();
    apollo::PolicyModel *m = cmd == "q" ? at(R, h)->model.get() : at(M, h).get();
    std::string s = "s";
    for (int i = 0; i < k; ++i) {
      std::vector<float> v; v.reserve(n);
      for (int j = 0; j < n; ++j) v.push_back(t.f());
      s += " " + std::to_string(m->getIndex(v));
    }
    emit(s);
  } else if (cmd == "qn" || cmd == "mqn") {  // qn H count f...: count selections of one vector
    auto h = t.s(); int k = t.l(); auto v = t.rest();
    apollo::PolicyModel *m = cmd == "qn" ? at(R, h)->model.get() : at(M, h).get();
    std::string s = "s";
    for (int i = 0; i < k; ++i) { auto w = v; s += " " + std::to_string(m->getIndex(w)); }
    emit(s);
  } else if (cmd == "mk") {
    auto h = t.s(), name = t.u(); int nf = t.l(), np = t.l();
    std::unordered_map<std::string, std::string> p;
    while (t.more()) { auto k = t.u(); auto e = k.find('='); p[k.substr(0, e)] = k.substr(e + 1); }
    M[h] = apollo::ModelFactory::createPolicyModel(name, nf, np, p);
    emit("ok");
  }
  else if (cmd == "mkp") { auto h = t.s(), name = t.u(); int np = t.l(); M[h] = apollo::ModelFactory::createPolicyModel(name, np, t.u()); emit("ok"); }
  else if (cmd == "mtrain") { auto h = t.s(); at(M, h)->train(at(D, t.s())); emit("ok"); }
  else if (cmd == "mtr") { emit(std::string("t ") + (at(M, t.s())->isTrainable() ? "1" : "0")); }
  else if (cmd == "mst") { auto h = t.s(); at(M, h)->store(t.u()); emit("ok"); }
  else if (cmd == "mld") { auto h = t.s(); at(M, h)->load(t.u()); emit("ok"); }
  else if (cmd == "mdel") { M.erase(t.s()); emit("ok"); }
  else if (cmd == "dnew") { D[t.s()].clear(); }
  else if (cmd == "dins") { auto d = t.s(); int p = t.l(); double m = t.d(); auto v = t.rest(); at(D, d).insert(v, p, m); }
  else if (cmd == "dmrg") { auto d = t.s(); at(D, d).insert(at(D, t.s())); }
  else if (cmd == "dload") { auto d = t.s(); std::ifstream is(t.u()); if (!is) { emit("nofile"); return 0; } D[d].load(is); emit("ok"); }
  else if (cmd == "dstore") { auto d = t.s(); std::ofstream os(t.u()); at(D, d).store(os); os.close(); emit("ok"); }
  else if (cmd == "dclr") { at(D, t.s()).clear(); }
  else if (cmd == "ddump") { dump(at(D, t.s())); }
  else if (cmd == "dmin") {
    std::vector<std::vector<float>> f; std::vector<int> p;
    std::map<std::vector<float>, std::pair<int, double>> m;
    at(D, t.s()).findMinMetricPolicyByFeatures(f, p, m);
    std::string s = "min " + std::to_string(f.size()) + " " + std::to_string(p.size());
    for (size_t i = 0; i < f.size(); ++i) {
      auto it = m.find(f[i]);
      s += " | " + std::to_string(p[i]) + " " + (it == m.end() ? "none" : std::to_string(it->second.first) + " " + hexd(it->second.second));
      for (float x : f[i]) s += " " + hexd(x);
    }
    emit(s);
  }
  else if (cmd == "clk") { int64_t a = strtoll(t.s().c_str(), 0, 10), b = strtoll(t.s().c_str(), 0, 10), c = strtoll(t.s().c_str(), 0, 10); envctl::mono_ns += a; envctl::real_ns += b; envctl::cpu_ns += c; }
  else if (cmd == "clkreal") { envctl::virt = false; }
  else if (cmd == "now") { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); char b[64]; snprintf(b, sizeof b, "%lld", (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec); emit(std::string("now ") + b); }
  else if (cmd == "entropy") { envctl::ent_state = strtoull(t.s().c_str(), 0, 10); }
  else if (cmd == "cps") { emit(cp_run(t)); }
  else if (cmd == "mark") { emit("mark"); }
  else if (cmd == "sleepms") { usleep(t.l() * 1000); }
#ifdef ENABLE_MPI
  else if (cmd == "barrier") { MPI_Barrier(MPI_COMM_WORLD); }
#endif
  else if (cmd == "_exit") { _exit(t.l()); }
  else if (cmd == "exit") { return 1; }
  else { fprintf(stderr, "DRIVER: unknown command %s\n", cmd.c_str()); _exit(98); }
  return 0;
}

int main(int argc, char **argv)
{
  std::string script = argv[1], out = argv[2];
#ifdef ENABLE_MPI
  envctl::virt = false;
  MPI_Init(&argc, &argv);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  script += "." + std::to_string(rank);
  out += "." + std::to_string(rank);
#endif
  ofd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  std::ifstream in(script);
  if (ofd < 0 || !in) { fprintf(stderr, "DRIVER: cannot open script/output\n"); return 98; }
  // The object that logs at static destruction is created before the library's singleton.
  std::string line;
  while (std::getline(in, line)) {
    ++lineno;
    std::istringstream ss(line);
    Tok t;
    std::string w;
    while (ss >> w) t.t.push_back(w);
    if (t.t.empty() || t.t[0][0] == '#') continue;
    std::string cmd = t.s();
    int rc = 0;
    if (cmd == "fork") {
      // fork N: the next N lines run in a child process; the parent logs how it ended
      int n = t.l(), first = lineno;
      std::vector<std::string> body;
      for (int i = 0; i < n && std::getline(in, line); ++i) body.push_back(line);
      pid_t pid = fork();
      if (pid == 0) {
        alarm(30);
        for (auto &b : body) {
          ++lineno;
          std::istringstream bs(b);
          Tok bt;
          while (bs >> w) bt.t.push_back(w);
          if (bt.t.empty()) continue;
          std::string bc = bt.s();
          try {
            run(bc, bt);
          } catch (const std::exception &e) {
            std::string m = e.what();
            for (auto &ch : m) if (ch == '\n') ch = ' ';
            emit("exc " + m);
            _exit(42);
          }
        }
        M.clear();
        fclose(stdin);
        exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      lineno = first;
      emit(WIFEXITED(st) ? "child exit " + std::to_string(WEXITSTATUS(st)) : "child signal " + std::to_string(WTERMSIG(st)));
      lineno = first + n;
      continue;
    }
    try {
      rc = run(cmd, t);
    } catch (const std::exception &e) {
      std::string m = e.what();
      for (auto &ch : m) if (ch == '\n') ch = ' ';
      emit("exc " + m);
    }
    if (rc) break;
  }
  M.clear();
  lineno = 0;
  emit("done");
#ifdef ENABLE_MPI
  MPI_Finalize();
#endif
  return 0;
}
