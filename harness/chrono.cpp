// Driver of the chronometer, under a clock of its own
#define HARNESS_MAIN
#include "harness.h"
#include <chrono>
#include <cmath>
#include "libeopsi/simplebm.h"

#ifdef HARNESS_PLUGIN
extern "C" long* plug_clock();
#define nowNs (*plug_clock())
#else
static long nowNs = 1000000000L;
// The clock that the library sees: it moves only when the script says so
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(nowNs)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(nowNs)); }
} } }
#endif

static std::map<std::string, SimpleBenchmark*> cs;
void begin() {}
void finish() { for (auto& i : cs) delete i.second; }

static NTL::ZZ big(unsigned long v) { NTL::ZZ z; NTL::ZZFromBytes(z, (const unsigned char*) &v, 8); return z; }
static std::string us(std::chrono::microseconds m) { return m.count() < 0 ? std::string("[-1]") : J::natJ(big((unsigned long) m.count())); }
// a double as mantissa and power of two (nothing is rounded)
static std::string dbl(double d) {
  if (!(d >= 0) || std::isinf(d)) return "{\"m\":[-1],\"e\":0}";
  int e = 0;
  double m = frexp(d, &e);
  unsigned long k = (unsigned long) ldexp(m, 53);
  if (k == 0) return "{\"m\":[],\"e\":0}";
  return "{\"m\":" + J::natJ(big(k)) + ",\"e\":" + std::to_string(e - 53) + "}";
}
static std::string cur(const std::string& h) { return h == "x" ? std::string() : hex2str(h); }

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  bool cond = true;
  if (o == "tick") { long d = num(a[1]); nowNs += d; emit(J().str("e", "Tick").nat("d", big((unsigned long) d))); return; }
  else if (o == "new") { cs[a[1]] = a[2] == "x" ? new SimpleBenchmark() : new SimpleBenchmark(u64(a[2])); j.str("e", "New").str("g", a[1]); }
  else if (o == "copy") { cs[a[1]] = new SimpleBenchmark(*cs.at(a[2])); j.str("e", "Copy").str("g", a[1]).str("of", a[2]); }
  else if (o == "assign") { *cs.at(a[1]) = *cs.at(a[2]); j.str("e", "Assign").str("g", a[1]).str("of", a[2]); }
  else if (o == "start") { cs.at(a[1])->start(); j.str("e", "Start").str("g", a[1]); }
  else if (o == "reset") { cs.at(a[1])->reset(); j.str("e", "Reset").str("g", a[1]); }
  else if (o == "cont") { cs.at(a[1])->cont(); j.str("e", "Cont").str("g", a[1]); }
  else if (o == "step") { if (a[2] == "x") cs.at(a[1])->step(); else cs.at(a[1])->step(cur(a[2])); j.str("e", "Step").str("g", a[1]).str("c", cur(a[2])); }
  else if (o == "many") {      // many G N D: a great many steps, D apart
    unsigned long n = u64(a[2]);
    long d = num(a[3]);
    for (unsigned long i = 0; i < n; i++) { nowNs += d; cs.at(a[1])->step(); }
    j.str("e", "Many").str("g", a[1]).num("n", n).nat("d", big((unsigned long) d));
  }
  else if (o == "pause") { if (a[2] == "x") cs.at(a[1])->pause(); else cs.at(a[1])->pause(cur(a[2])); j.str("e", "Pause").str("g", a[1]).str("c", cur(a[2])); }
  else if (o == "stop") { if (a[2] == "x") cs.at(a[1])->stop(); else cs.at(a[1])->stop(cur(a[2])); j.str("e", "Stop").str("g", a[1]).str("c", cur(a[2])); }
  else if (o == "del") { delete cs.at(a[1]); cs.erase(a[1]); j.str("e", "Del").str("g", a[1]); cond = false; }
  else if (o == "bench") { unsigned long n = a[2] == "x" ? 0 : u64(a[2]); j.str("e", "Bench").str("g", a[1]).nat("n", big(n)).raw("r", us(a[2] == "x" ? cs.at(a[1])->benchmark() : cs.at(a[1])->benchmark((size_t) n))); }
  else if (o == "benchs") { j.str("e", "BenchS").str("g", a[1]).str("c", cur(a[2])).raw("r", us(cs.at(a[1])->benchmark(cur(a[2])))); }
  else if (o == "cum") {      // cum G N|x NP|x
    unsigned long n = a[2] == "x" ? 0 : u64(a[2]);
    bool np = a[3] != "0";
    auto r = a[2] == "x" ? cs.at(a[1])->cumulativeBenchmark() : a[3] == "x" ? cs.at(a[1])->cumulativeBenchmark((size_t) n) : cs.at(a[1])->cumulativeBenchmark((size_t) n, np);
    j.str("e", "Cum").str("g", a[1]).nat("n", big(n)).boo("np", a[2] == "x" ? true : np).raw("r", us(r));
  }
  else if (o == "cums") {
    bool np = a[3] != "0";
    auto r = a[3] == "x" ? cs.at(a[1])->cumulativeBenchmark(cur(a[2])) : cs.at(a[1])->cumulativeBenchmark(cur(a[2]), np);
    j.str("e", "CumS").str("g", a[1]).str("c", cur(a[2])).boo("np", np).raw("r", us(r));
  }
  else if (o == "stat") {
    const SimpleBenchmark& c = *cs.at(a[1]);
    bool np = a[2] != "0", d = a[2] == "x";
    j.str("e", "Stat").str("g", a[1]).boo("np", np);
    j.raw("min", us(d ? c.min() : c.min(np))).raw("max", us(d ? c.max() : c.max(np)));
    j.raw("avg", dbl(d ? c.average() : c.average(np))).raw("var", dbl(d ? c.variance() : c.variance(np))).raw("std", dbl(d ? c.standardDeviation() : c.standardDeviation(np)));
  }
  else { _exit(98); }
  if (cond) j.boo("paused", cs.at(a[1])->isPaused()).boo("stopped", cs.at(a[1])->isStopped());
  emit(j);
}
