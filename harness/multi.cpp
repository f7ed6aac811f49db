/*
 * Several worlds in one process.  Each world is a driver (a plug-in with state of
 * its own; the library is there once), a script and a trace:
 *
 *   group NAME one|token|free ORDER      ORDER: whose turn it is, as digits
 *   world DRIVER
 *   OP ARG ...
 *   world DRIVER
 *   ...
 *   end
 *
 * one: all in one thread (with the field of each world set for its operations);
 * token: a thread for each world, one operation at a time; free: threads on the loose.
 * The trace of a world of driver D goes to TRACE.D, as if it had run alone.
 */
#include "harness.h"
#include <dlfcn.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <atomic>

struct World {
  std::string driver;
  std::vector<Args> ops;
  size_t at = 0;
  int fd = -1;
  char* pend = nullptr;
  long clock = 1000000000L;
  bool timed = false;
  NTL::ZZ_pContext field;
  void (*init)(int, char*) = nullptr;
  void (*doOp)(const Args*) = nullptr;
  void (*fin)() = nullptr;
};
static thread_local World* cur = nullptr;
static thread_local std::streambuf* target = nullptr;
int traceFd = -1;
char* pendingOp = nullptr;
void op(const Args&) {}
void begin() {}
void finish() {}

extern "C" long* plug_clock() { return &cur->clock; }
extern "C" std::streambuf** plug_target() { return &target; }
static long tick() { if (!cur) return 0; if (!cur->timed) cur->clock += 1000; return cur->clock; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(tick())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(tick())); }
} } }
struct Switch : public std::streambuf {
  int overflow(int c) override { if (target && c != EOF) target->sputc((char) c); return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (target) target->sputn(s, n); return n; }
};

static void load(World& w, const std::string& dir, size_t k) {
  std::string f = dir + "/" + w.driver + "." + std::to_string(k) + ".so";
  void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { dprintf(2, "%s\n", dlerror()); _exit(94); }
  w.init = (void (*)(int, char*)) dlsym(h, "plug_init");
  w.doOp = (void (*)(const Args*)) dlsym(h, "plug_op");
  w.fin = (void (*)()) dlsym(h, "plug_finish");
  w.timed = w.driver == "chrono";
}
static void step(World& w) {       // the next operation, or the end
  cur = &w;
  if (w.at < w.ops.size()) w.doOp(&w.ops[w.at]); else w.fin();
  w.at++;
}

static void runOne(std::vector<World*>& ws, const std::string& order) {
  NTL::ZZ_pContext none;
  for (auto w : ws) { cur = w; w->init(w->fd, w->pend); }
  auto turn = [&](World& w) { w.field.restore(); step(w); w.field.save(); };
  for (char c : order) { World& w = *ws[(size_t) (c - '0') % ws.size()]; if (w.at <= w.ops.size()) turn(w); }
  for (bool more = true; more;) { more = false; for (auto w : ws) if (w->at <= w->ops.size()) { turn(*w); more = true; } }
}
static void runToken(std::vector<World*>& ws, const std::string& order) {
  std::mutex m;
  std::condition_variable cv;
  int whose = -1;                   // -1: nobody's, -2: over
  std::vector<std::thread> ts;
  for (size_t k = 0; k < ws.size(); k++) ts.emplace_back([&, k]() {
    std::unique_lock<std::mutex> l(m);
    bool fresh = true;
    while (true) {
      cv.wait(l, [&]() { return whose == (int) k || whose == -2; });
      if (whose == -2) return;
      if (fresh) { cur = ws[k]; ws[k]->init(ws[k]->fd, ws[k]->pend); fresh = false; }
      step(*ws[k]);
      whose = -1;
      cv.notify_all();
    }
  });
  auto turn = [&](size_t k) { std::unique_lock<std::mutex> l(m); whose = (int) k; cv.notify_all(); cv.wait(l, [&]() { return whose == -1; }); };
  for (char c : order) { size_t k = (size_t) (c - '0') % ws.size(); if (ws[k]->at <= ws[k]->ops.size()) turn(k); }
  for (bool more = true; more;) { more = false; for (size_t k = 0; k < ws.size(); k++) if (ws[k]->at <= ws[k]->ops.size()) { turn(k); more = true; } }
  { std::unique_lock<std::mutex> l(m); whose = -2; cv.notify_all(); }
  for (auto& t : ts) t.join();
}
static void runFree(std::vector<World*>& ws) {
  std::atomic<size_t> ready(0);
  std::vector<std::thread> ts;
  for (auto w : ws) ts.emplace_back([&, w]() {
    cur = w;
    w->init(w->fd, w->pend);
    ready++;
    while (ready < ws.size()) std::this_thread::yield();
    while (w->at <= w->ops.size()) step(*w);
  });
  for (auto& t : ts) t.join();
}

int main(int argc, char** argv) {
  if (argc < 4) { fprintf(stderr, "usage: %s SCRIPT TRACE PLUGINS\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  std::string line, name, mode, order;
  std::vector<World*> ws;
  size_t nr = 0;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    Args a;
    std::string t;
    while (ls >> t) a.push_back(t);
    if (a.empty()) continue;
    if (a[0] == "group") { name = a[1]; mode = a[2]; order = a.size() > 3 ? a[3] : ""; ws.clear(); continue; }
    if (a[0] == "world") { ws.push_back(new World); ws.back()->driver = a[1]; continue; }
    if (a[0] != "end") { ws.back()->ops.push_back(a); continue; }
    for (size_t k = 0; k < ws.size(); k++) {
      World& w = *ws[k];
      std::string f = std::string(argv[2]) + ".w" + std::to_string(k);
      w.fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
      w.pend = (char*) mmap(nullptr, PENDING_MAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (w.fd < 0 || w.pend == MAP_FAILED) { perror("world"); return 2; }
      strcpy(w.pend, "{\"e\":\"Begin\"}");
    }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      struct rlimit rl; rl.rlim_cur = rl.rlim_max = 100;
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      if (!getenv("HARNESS_STDERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
      static Switch sw;
      std::cout.rdbuf(&sw);
      for (size_t k = 0; k < ws.size(); k++) load(*ws[k], argv[3], k);
      if (mode == "one") runOne(ws, order); else if (mode == "token") runToken(ws, order); else runFree(ws);
      _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    for (size_t k = 0; k < ws.size(); k++) {
      World& w = *ws[k];
      std::string f = std::string(argv[2]) + ".w" + std::to_string(k), body;
      { std::ifstream r(f); std::stringstream b; b << r.rdbuf(); body = b.str(); }
      close(w.fd);
      unlink(f.c_str());
      traceFd = open((std::string(argv[2]) + "." + w.driver).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (traceFd < 0) { perror("trace"); return 2; }
      emit(J().str("e", "Case").str("name", name + "/" + std::to_string(k)));
      if (!body.empty() && body.back() == '\n') body.pop_back();
      if (!body.empty()) emitLine(body);
      emit(J().str("e", "Exit").num("code", WIFEXITED(st) ? WEXITSTATUS(st) : -1).num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).raw("op", w.pend));
      close(traceFd);
      munmap(w.pend, PENDING_MAX);
      delete ws[k];
    }
    ws.clear();
    nr++;
  }
  return 0;
}
