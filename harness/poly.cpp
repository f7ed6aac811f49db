// Driver of the batches of polynomials
#define HARNESS_MAIN
#include "harness.h"
#include <NTL/ZZ_pX.h>
#include "libeopsi/zzppoly.h"
using namespace NTL;

static std::map<std::string, ZZpPolynomials*> bs;
void begin() {}
void finish() { for (auto& i : bs) delete i.second; }

static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string t;
  std::istringstream is(s);
  while (std::getline(is, t, c)) r.push_back(t);
  return r;
}
static vec_ZZ_p vec(const std::string& s) {
  vec_ZZ_p v;
  for (auto& t : split(s, ',')) { ZZ_p z; conv(z, zz(t)); v.append(z); }
  return v;
}
static std::string vJ(const vec_ZZ_p& v) { return J::natsJ(reps(v)); }
static std::string rJ(const vec_ZZ& v) { std::vector<ZZ> r; for (long i = 0; i < v.length(); i++) r.push_back(v[i]); return J::natsJ(r); }

// a polynomial is given as LEAD;root^mult,root^mult;b:c,b:c   or   =value,value,...
struct Poly { vec_ZZ_p y; std::string json; };
static Poly poly(const std::string& s, const vec_ZZ_p& x) {
  Poly p;
  if (s[0] == '=') {
    p.y = vec(s.substr(1));
    p.json = "{\"y\":" + vJ(p.y) + ",\"lead\":[],\"roots\":[],\"quads\":[]}";
    return p;
  }
  std::vector<std::string> f = split(s, ';');
  f.resize(3);
  ZZ_p lead;
  conv(lead, zz(f[0]));
  for (long i = 0; i < x.length(); i++) p.y.append(lead);
  std::string rs, qs;
  for (auto& t : split(f[1], ',')) {
    auto rm = split(t, '^');
    ZZ_p r; conv(r, zz(rm[0]));
    long m = num(rm[1]);
    for (long k = 0; k < m; k++) for (long i = 0; i < x.length(); i++) p.y[i] *= x[i] - r;
    rs += (rs.empty() ? "" : ",") + ("{\"r\":" + J::natJ(rep(r)) + ",\"m\":" + std::to_string(m) + "}");
  }
  for (auto& t : split(f[2], ',')) {
    auto bc = split(t, ':');
    ZZ_p b, c; conv(b, zz(bc[0])); conv(c, zz(bc[1]));
    for (long i = 0; i < x.length(); i++) p.y[i] *= x[i] * x[i] + b * x[i] + c;
    qs += (qs.empty() ? "" : ",") + ("{\"b\":" + J::natJ(rep(b)) + ",\"c\":" + J::natJ(rep(c)) + "}");
  }
  p.json = "{\"y\":" + vJ(p.y) + ",\"lead\":" + J::natJ(rep(lead)) + ",\"roots\":[" + rs + "],\"quads\":[" + qs + "]}";
  return p;
}

static PolynomialFactoringAlgorithm alg(const std::string& s) { return (PolynomialFactoringAlgorithm) num(s); }

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "ctx") { ZZ_p::init(zz(a[1])); emit(J().str("e", "Ctx").nat("p", zz(a[1]))); return; }
  if (o == "new") { bs[a[1]] = new ZZpPolynomials(u64(a[2])); emit(J().str("e", "New").str("g", a[1]).num("pad", (long) u64(a[2])).num("size", (long) bs[a[1]]->size()).num("told", (long) bs[a[1]]->getPadsize())); return; }
  if (o == "del") { delete bs.at(a[1]); bs.erase(a[1]); emit(J().str("e", "Del").str("g", a[1])); return; }
  ZZpPolynomials& b = *bs.at(a[1]);
  if (o == "interp" || o == "whole") {       // interp G MONIC|x X POLY...    whole G ALG|x X POLY...
    vec_ZZ_p x = vec(a[3]), x0 = x;
    size_t n = a.size() - 4;
    vec_ZZ_p* y = new vec_ZZ_p[n];
    std::string ps;
    std::vector<vec_ZZ_p> y0;
    for (size_t i = 0; i < n; i++) { Poly p = poly(a[4 + i], x); y[i] = p.y; y0.push_back(p.y); ps += (i ? "," : "") + p.json; }
    j.str("e", o == "interp" ? "Interp" : "Whole").str("g", a[1]).raw("x", vJ(x)).raw("polys", "[" + ps + "]");
    pending("{\"e\":\"" + o + "\"}");
    if (o == "interp") { if (a[2] == "x") b.interpolate(x, y, n); else b.interpolate(x, y, n, a[2] == "1"); }
    else j.raw("r", rJ(a[2] == "x" ? b.findIntersection(x, y, n) : b.findIntersection(x, y, n, alg(a[2]))));
    bool same = x == x0;
    for (size_t i = 0; i < n; i++) same = same && y[i] == y0[i];
    j.boo("same", same).num("size", (long) b.size());
    for (size_t i = 0; i < n; i++) y[i].kill();
    delete [] y;
  }
  else if (o == "monic") { b.makeMonic(); j.str("e", "Monic").str("g", a[1]).num("size", (long) b.size()); }
  else if (o == "factor") { if (a[2] == "x") b.factorise(); else b.factorise(alg(a[2])); j.str("e", "Factor").str("g", a[1]).num("size", (long) b.size()); }
  else if (o == "find") { vec_ZZ r = b.findIntersection(); j.str("e", "Find").str("g", a[1]).raw("r", rJ(r)).num("size", (long) b.size()); }
  else if (o == "threads") { b.useThreads(u64(a[2])); j.str("e", "Threads").str("g", a[1]).num("size", (long) b.size()); }
  else if (o == "say") { std::ostringstream s; s << b; j.str("e", "Say").str("g", a[1]).str("text", s.str()).num("size", (long) b.size()); }
  else { _exit(98); }
  emit(j);
}
