// Scenario driver for the Kokkos connector: plays the role of Kokkos' tool
// loader, executing a script of kokkosp_* calls and logging what it observes.
#include <fcntl.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <impl/Kokkos_Profiling_Interface.hpp>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "apollo/Apollo.h"
#include "envctl.h"

using namespace Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int, char **);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_provide_tool_programming_interface(uint32_t, ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, ToolSettings *);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *);
void kokkosp_end_context(size_t);
}

static int ofd = -1, lineno = 0;
static void emit(const std::string &p)
{
  std::string s = std::to_string(lineno) + " " + p + "\n";
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(ofd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(97);
    o += n;
  }
}
static std::string unesc(const std::string &s)
{
  if (s == "-") return "";
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += s[i];
  return r;
}
struct Tok {
  std::vector<std::string> t;
  size_t i = 0;
  bool more() const { return i < t.size(); }
  std::string s()
  {
    if (i >= t.size()) { fprintf(stderr, "DRIVER: missing token line %d\n", lineno); _exit(98); }
    return t[i++];
  }
  std::string u() { return unesc(s()); }
  long long l() { return strtoll(s().c_str(), nullptr, 10); }
  double d() { return strtod(s().c_str(), nullptr); }
};

static std::deque<VariableInfo> infos;
static std::map<size_t, VariableInfo *> vars;
static std::vector<std::pair<uint32_t, int>> fences;
static void fence_cb(const uint32_t dev) { fences.push_back({dev, lineno}); }

static ValueType vtype(const std::string &s)
{
  return s == "int" ? kokkos_value_int64 : s == "double" ? kokkos_value_double : kokkos_value_string;
}
static Kokkos_Tools_VariableValue_ValueUnion val(ValueType ty, Tok &t)
{
  Kokkos_Tools_VariableValue_ValueUnion v;
  memset(&v, 0, sizeof v);
  if (ty == kokkos_value_int64) v.int_value = t.l();
  else if (ty == kokkos_value_double) v.double_value = t.d();
  else strncpy(v.string_value, t.u().c_str(), KOKKOS_TOOLS_TUNING_STRING_LENGTH - 1);
  return v;
}
static std::string show(const VariableValue &v, ValueType ty)
{
  char b[512];
  if (ty == kokkos_value_int64) snprintf(b, sizeof b, "i:%lld", (long long)v.value.int_value);
  else if (ty == kokkos_value_double) snprintf(b, sizeof b, "d:%a", v.value.double_value);
  else {
    std::string s = "s:";
    for (int i = 0; i < KOKKOS_TOOLS_TUNING_STRING_LENGTH && v.value.string_value[i]; ++i) {
      snprintf(b, sizeof b, "%02x", (unsigned char)v.value.string_value[i]);
      s += b;
    }
    return s;
  }
  return b;
}
static std::string fence_list()
{
  std::string s = std::to_string(fences.size());
  for (auto &f : fences) s += " " + std::to_string(f.first);
  fences.clear();
  return s;
}

static int run(const std::string &cmd, Tok &t)
{
  if (cmd == "env") { auto k = t.u(); auto v = t.u(); setenv(k.c_str(), v.c_str(), 1); }
  else if (cmd == "args") {
    std::vector<std::string> a;
    while (t.more()) a.push_back(t.u());
    std::vector<char *> p;
    for (auto &s : a) p.push_back(const_cast<char *>(s.c_str()));
    p.push_back(nullptr);
    kokkosp_parse_args((int)a.size(), p.data());
  }
  else if (cmd == "init") { kokkosp_init_library(0, 20210623, 0, nullptr); emit("ok"); }
  else if (cmd == "fencecb") {
    ToolProgrammingInterface i;
    memset(&i, 0, sizeof i);
    i.fence = fence_cb;
    kokkosp_provide_tool_programming_interface(1, i);
  }
  else if (cmd == "settings") {
    ToolSettings s;
    memset(&s, 1, sizeof s);
    kokkosp_request_tool_settings(1, &s);
    emit(std::string("set ") + (s.requires_global_fencing ? "1" : "0"));
  }
  else if (cmd == "din" || cmd == "dout") {
    // din/dout id name type unbounded | set n v... | range lo hi step openLower openUpper
    size_t id = t.l();
    std::string name = t.u();
    infos.emplace_back();
    VariableInfo &f = infos.back();
    memset(&f, 0, sizeof f);
    f.type = vtype(t.s());
    f.category = kokkos_value_categorical;
    std::string q = t.s();
    if (q == "unbounded") f.valueQuantity = kokkos_value_unbounded;
    else if (q == "set") {
      f.valueQuantity = kokkos_value_set;
      size_t n = t.l();
      f.candidates.set.size = n;
      // exactly sized arrays: a read past the candidates is reported
      if (f.type == kokkos_value_int64) f.candidates.set.values.int_value = new int64_t[n];
      else if (f.type == kokkos_value_double) f.candidates.set.values.double_value = new double[n];
      else f.candidates.set.values.string_value = new Kokkos_Tools_Tuning_String[n];
      for (size_t i = 0; i < n; ++i) {
        auto v = val(f.type, t);
        if (f.type == kokkos_value_int64) f.candidates.set.values.int_value[i] = v.int_value;
        else if (f.type == kokkos_value_double) f.candidates.set.values.double_value[i] = v.double_value;
        else memcpy(f.candidates.set.values.string_value[i], v.string_value, sizeof v.string_value);
      }
    } else {
      f.valueQuantity = kokkos_value_range;
      f.category = kokkos_value_interval;
      f.candidates.range.lower = val(f.type, t);
      f.candidates.range.upper = val(f.type, t);
      f.candidates.range.step = val(f.type, t);
      f.candidates.range.openLower = t.l();
      f.candidates.range.openUpper = t.l();
    }
    vars[id] = &f;
    if (cmd == "din") kokkosp_declare_input_type(name.c_str(), id, &f);
    else kokkosp_declare_output_type(name.c_str(), id, &f);
  }
  else if (cmd == "req") {
    // req ctx nin (id value)* nout (id default)*
    size_t ctx = t.l();
    std::vector<VariableValue> in, out;
    for (int pass = 0; pass < 2; ++pass) {
      int n = t.l();
      for (int i = 0; i < n; ++i) {
        VariableValue v;
        memset(&v, 0, sizeof v);
        v.type_id = t.l();
        v.metadata = vars.at(v.type_id);
        v.value = val(v.metadata->type, t);
        (pass ? out : in).push_back(v);
      }
    }
    in.shrink_to_fit();
    out.shrink_to_fit();
    auto in0 = in, out0 = out;
    kokkosp_request_values(ctx, in.size(), in.data(), out.size(), out.data());
    std::string s = "v";
    for (size_t i = 0; i < out.size(); ++i) {
      if (out[i].type_id != out0[i].type_id) s += " BADID";
      s += " " + show(out[i], out0[i].metadata->type);
    }
    for (size_t i = 0; i < in.size(); ++i)
      if (show(in[i], in0[i].metadata->type) != show(in0[i], in0[i].metadata->type)) s += " BADIN";
    emit(s);
  }
  else if (cmd == "endctx") { kokkosp_end_context(t.l()); emit("ok"); }
  else if (cmd == "kernel") {
    // kernel for|scan|reduce dev: fences requested before and after it
    std::string k = t.s();
    uint32_t dev = (uint32_t)t.l();
    uint64_t id = 0;
    fences.clear();
    if (k == "for") kokkosp_begin_parallel_for("k", dev, &id);
    else if (k == "scan") kokkosp_begin_parallel_scan("k", dev, &id);
    else kokkosp_begin_parallel_reduce("k", dev, &id);
    std::string s = "f " + fence_list();
    if (k == "for") kokkosp_end_parallel_for(id);
    else if (k == "scan") kokkosp_end_parallel_scan(id);
    else kokkosp_end_parallel_reduce(id);
    emit(s + " | " + fence_list());
  }
  else if (cmd == "fini") { kokkosp_finalize_library(); emit("ok"); }
  else if (cmd == "clk") { int64_t a = t.l(), b = t.l(), c = t.l(); envctl::mono_ns += a; envctl::real_ns += b; envctl::cpu_ns += c; }
  else if (cmd == "mark") { emit("mark"); }
  else { fprintf(stderr, "DRIVER: unknown command %s\n", cmd.c_str()); _exit(98); }
  return 0;
}

int main(int argc, char **argv)
{
  (void)argc;
  ofd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  std::ifstream in(argv[1]);
  if (ofd < 0 || !in) return 98;
  std::string line;
  while (std::getline(in, line)) {
    ++lineno;
    std::istringstream ss(line);
    Tok t;
    std::string w;
    while (ss >> w) t.t.push_back(w);
    if (t.t.empty()) continue;
    std::string cmd = t.s();
    try {
      run(cmd, t);
    } catch (const std::exception &e) {
      std::string m = e.what();
      for (auto &ch : m) if (ch == '\n') ch = ' ';
      emit("exc " + m);
    }
  }
  lineno = 0;
  emit("done");
  return 0;
}
