/*
 * Common part of the conformance drivers.
 *
 * A driver reads a script of cases from the file given as first argument and
 * writes one JSON line per performed operation (a trace) to the second one:
 *
 *   case NAME          starts a case (run in a process of its own)
 *   OP ARG ARG ...     operations
 *   end
 *
 * Only the public interface of the library is used.  An operation that ends
 * the process (or crashes it) is reported by the parent, as the operation
 * which was being performed and how the process ended.
 */
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>
#include <NTL/vec_ZZ_p.h>
#include <NTL/vec_ZZ.h>

typedef unsigned char byte_t;
typedef std::vector<byte_t> Bytes;
typedef std::vector<std::string> Args;

// ---------------------------------------------------------------- JSON
struct J {                      // a JSON object under construction
  std::string s;
  bool first = true;
  J& raw(const char* k, const std::string& v) {
    if (!first) s += ",";
    first = false;
    s += "\""; s += k; s += "\":"; s += v;
    return *this;
  }
  static std::string quote(const std::string& v) {
    std::string o = "\"";
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }
  J& str(const char* k, const std::string& v) { return raw(k, quote(v)); }
  J& num(const char* k, long v) {
    if (v > 2147483647L || v < -2147483647L) { return raw(k, "-2147483647"); } // never silently wrapped
    return raw(k, std::to_string(v));
  }
  J& boo(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  static std::string bytesJ(const byte_t* b, size_t n) {
    std::string o = "[";
    for (size_t i = 0; i < n; i++) { if (i) o += ","; o += std::to_string((int) b[i]); }
    return o + "]";
  }
  J& bytes(const char* k, const Bytes& b) { return raw(k, bytesJ(b.data(), b.size())); }
  J& text(const char* k, const std::string& t) { return raw(k, bytesJ((const byte_t*) t.data(), t.size())); }
  J& u64(const char* k, unsigned long v) { return raw(k, bytesJ((const byte_t*) &v, 8)); }
  // a natural number as its digits in base 2^15, least significant first
  static std::string natJ(const NTL::ZZ& z) {
    if (NTL::sign(z) < 0) return "[-1]";
    std::string o = "[";
    NTL::ZZ t = z;
    bool f = true;
    while (!NTL::IsZero(t)) {
      if (!f) o += ",";
      f = false;
      o += std::to_string(NTL::trunc_long(t, 15));
      t >>= 15;
    }
    return o + "]";
  }
  J& nat(const char* k, const NTL::ZZ& z) { return raw(k, natJ(z)); }
  static std::string natsJ(const std::vector<NTL::ZZ>& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += natJ(v[i]); }
    return o + "]";
  }
  J& nats(const char* k, const std::vector<NTL::ZZ>& v) { return raw(k, natsJ(v)); }
  std::string done() const { return "{" + s + "}"; }
};

inline std::vector<NTL::ZZ> reps(const NTL::vec_ZZ_p& v) {
  std::vector<NTL::ZZ> r;
  for (long i = 0; i < v.length(); i++) r.push_back(rep(v[i]));
  return r;
}

// ------------------------------------------------------------- arguments
inline Bytes hex2bytes(const std::string& h) {   // "-" is the empty string
  Bytes b;
  if (h == "-") return b;
  for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((byte_t) strtoul(h.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
inline std::string hex2str(const std::string& h) { Bytes b = hex2bytes(h); return std::string(b.begin(), b.end()); }
inline NTL::ZZ zz(const std::string& dec) { NTL::ZZ z; std::istringstream(dec) >> z; return z; }
inline unsigned long u64(const std::string& s) { return strtoull(s.c_str(), nullptr, 0); }
inline long num(const std::string& s) { return strtol(s.c_str(), nullptr, 0); }

// ----------------------------------------------------------------- output
extern int traceFd;
extern char* pendingOp;
extern std::string collected;       // what the library printed on std::cout during an operation
static std::string* sink = nullptr;   // collects the lines of a repeated operation
inline void emitLine(const std::string& l) {
  if (sink) { *sink += l + "\n"; return; }
  std::string x = l + "\n";
  size_t off = 0;
  while (off < x.size()) {
    ssize_t w = write(traceFd, x.data() + off, x.size() - off);
    if (w <= 0) _exit(97);
    off += (size_t) w;
  }
}
inline void emit(const J& j) { emitLine(j.done()); }

const size_t PENDING_MAX = 1 << 20;
inline void pending(const std::string& json) {
  size_t n = json.size() < PENDING_MAX - 1 ? json.size() : PENDING_MAX - 1;
  memcpy(pendingOp, json.data(), n);
  pendingOp[n] = 0;
}

// Captures std::cout while alive
#ifdef HARNESS_PLUGIN
extern "C" std::streambuf** plug_target();
struct Capture {
  std::stringstream ss;
  Capture() { *plug_target() = ss.rdbuf(); }
  ~Capture() { *plug_target() = nullptr; }
  std::string get() const { return ss.str(); }
};
#else
struct Capture {
  std::stringstream ss;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(ss.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
  std::string get() const { return ss.str(); }
};
#endif

// To be defined by each driver: performs one operation of a case
void op(const Args& a);
// Called at the start of each case, in its process
void begin();
// Called at the end of each case (releases what the case made)
void finish();

inline void performed(const Args& o) {
  if (o[0] == "rep") {        // rep N OP ...: N times; told once, and again when it came out differently
    Args q(o.begin() + 2, o.end());
    std::string first, next;
    for (unsigned long n = u64(o[1]), i = 0; i < n; i++) {
      next.clear();
      sink = i ? &next : &first;
      performed(q);
      sink = nullptr;
      if (first.empty()) return;
      if (i == 0) emitLine(first.substr(0, first.size() - 1));
      else if (next != first) { emitLine(next.substr(0, next.size() - 1)); break; }
    }
    return;
  }
  std::string args = "[";
  for (size_t i = 0; i < o.size(); i++) { if (i) args += ","; args += J::quote(o[i].substr(0, 64)); }
  pending("{\"e\":\"Op\",\"op\":" + args + "]}");
  op(o);
}

#if defined(HARNESS_PLUGIN)
// One of several worlds in a process (see multi.cpp)
int traceFd = -1;
char* pendingOp = nullptr;
extern "C" void plug_init(int fd, char* p) { traceFd = fd; pendingOp = p; begin(); }
extern "C" void plug_op(const Args* o) { performed(*o); }
extern "C" void plug_finish() { pending("{\"e\":\"Finish\"}"); finish(); pending("{\"e\":\"End\"}"); }
#elif defined(HARNESS_MAIN)
int traceFd = -1;
char* pendingOp = nullptr;

int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s SCRIPT TRACE\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  if (!in) { fprintf(stderr, "no script\n"); return 2; }
  traceFd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (traceFd < 0) { perror("trace"); return 2; }
  pendingOp = (char*) mmap(nullptr, PENDING_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (pendingOp == MAP_FAILED) { perror("mmap"); return 2; }
  std::string line, name;
  std::vector<Args> ops;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    Args a;
    std::string t;
    while (ls >> t) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "case") { name = a.size() > 1 ? a[1] : "?"; ops.clear(); continue; }
    if (a[0] != "end") { ops.push_back(a); continue; }
    emit(J().str("e", "Case").str("name", name));
    pending("{\"e\":\"Begin\"}");
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 40;    // CPU seconds: never of the wall clock
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      if (!getenv("HARNESS_STDERR")) dup2(dn, 2);
      begin();
      for (auto& o : ops) performed(o);
      pending("{\"e\":\"Finish\"}");
      finish();
      pending("{\"e\":\"End\"}");
      fflush(stdout);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    J x;
    x.str("e", "Exit").num("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1).num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0);
    x.raw("op", pendingOp);
    emit(x);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) break;   // ran away: no use in going on
  }
  return 0;
}
#endif
#endif
