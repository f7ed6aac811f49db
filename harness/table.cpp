// Driver of the hash tables
#define HARNESS_MAIN
#include "harness.h"
#include <cmath>
#include "libeopsi/hashbuckets.hpp"
#include "libeopsi/shazzp.h"
#include "libeopsi/shastr.h"
#include "libeopsi/murmurhash3.h"
#include "libeopsi/zzpprf.h"

static std::vector<NTL::ZZ> drawn;
struct TPPrf : public ZZpPRF {
  TPPrf(NTL::ZZ m) : ZZpPRF(m) {}
  NTL::ZZ_p randomSeed() override { NTL::ZZ_p s = ZZpPRF::randomSeed(); drawn.push_back(rep(s)); return s; }
};
typedef HashBuckets<NTL::ZZ_p> TZ;
typedef HashBuckets<std::string> TS;
struct Tab { TZ* z = nullptr; TS* s = nullptr; ~Tab() { delete z; delete s; } };

static std::map<std::string, Tab*> ts;
static std::map<std::string, TPPrf*> ps;
static std::vector<HashAlgorithm<NTL::ZZ_p>*> za;
static std::vector<HashAlgorithm<std::string>*> sa;
static std::string current;       // the table of an operation that may end the process
static bool mayEnd = false;

static std::string elJ(const NTL::ZZ_p& e) { return J::natJ(rep(e)); }
static std::string elJ(const std::string& e) { return J::bytesJ((const byte_t*) e.data(), e.size()); }

template <class B> static std::string bucketJ(const B& b) {
  std::string c = "[";
  for (size_t x = 0; x < b.size(); x++) { if (x) c += ","; c += elJ(b[x]); }
  return c + "]";
}
template <class H> static void dumpT(J& j, H* t) {
  std::string c = "[", m = "[";
  for (size_t i = 0; i < t->getLength(); i++) {
    auto b = i % 2 ? t->getBucket(i) : (*t)[i];
    if (i) { c += ","; m += ","; }
    c += bucketJ(b);
    m += b.isMarked() ? "true" : "false";
  }
  j.raw("cells", c + "]").raw("marks", m + "]").num("n", t->size()).num("k", t->getLength()).num("h", t->getMaxLoad());
}
static void dump(J& j, const std::string& t) { if (ts.at(t)->z) dumpT(j, ts.at(t)->z); else dumpT(j, ts.at(t)->s); }

static void leaving() {           // content at the end by a fatal error
  if (!mayEnd) return;
  mayEnd = false;
  J j;
  j.str("e", "Left").str("t", current);
  dump(j, current);
  emit(j);
}

void begin() { atexit(leaving); }
void finish() {
  for (auto& i : ts) delete i.second;
  for (auto& i : ps) delete i.second;
  for (auto* x : za) delete x;
  for (auto* x : sa) delete x;
}

// A printed number as digits and scale: VALUE = m / 10^s; empty if there is none
static std::string decJ(const std::string& t) {
  std::string d;
  long s = 0, e = 0;
  bool dot = false, any = false;
  size_t i = 0;
  for (; i < t.size(); i++) {
    if (isdigit((unsigned char) t[i])) { d += t[i]; any = true; if (dot) s++; }
    else if (t[i] == '.' && !dot) dot = true;
    else break;
  }
  if (!any) return "{\"m\":[-1],\"s\":0}";
  if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) e = strtol(t.c_str() + i + 1, nullptr, 10);
  s -= e;
  NTL::ZZ m = zz(d);
  while (s < 0) { m *= 10; s++; }
  return "{\"m\":" + J::natJ(m) + ",\"s\":" + std::to_string(s) + "}";
}
static std::string after(const std::string& t, const std::string& label, size_t from = 0) {
  size_t p = t.find(label, from);
  if (p == std::string::npos) return "";
  p += label.size();
  while (p < t.size() && t[p] == ' ') p++;
  return t.substr(p, 40);
}
static void statsJ(J& j, const std::string& t) {
  size_t mn = t.find("min ="), mx = t.find("max =");
  j.raw("total", decJ(after(t, "N ="))).raw("fill", decJ(after(t, "(", t.find("N ="))));
  j.raw("min", decJ(after(t, "min ="))).raw("minb", decJ(after(t, "bucket", mn))).raw("max", decJ(after(t, "max ="))).raw("maxb", decJ(after(t, "bucket", mx)));
  size_t av = t.find("Average");
  j.raw("avg", decJ(after(t, "m =", av))).raw("var", decJ(after(t, "v =", av))).raw("dev", decJ(after(t, "d =", av)));
  size_t p = t.find('\n', t.find("d =", av));
  std::string s = "[";
  bool first = true;
  while (p != std::string::npos && (p = t.find('(', p)) != std::string::npos) {
    long i = -1, n = -1;
    if (sscanf(t.c_str() + p, "(%ld, %ld)", &i, &n) == 2) { if (!first) s += ","; first = false; s += "[" + std::to_string(i) + "," + std::to_string(n) + "]"; }
    p++;
  }
  j.raw("shown", s + "]");
}

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  drawn.clear();
  if (o == "srand") { srand(num(a[1])); return; }
  else if (o == "ctx") { NTL::ZZ_p::init(zz(a[1])); j.str("e", "Ctx").nat("p", zz(a[1])); }
  else if (o == "newp") { ps[a[1]] = new TPPrf(zz(a[2])); j.str("e", "NewP").str("g", a[1]).nat("m", zz(a[2])); }
  else if (o == "nextp") { PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>& b = *ps.at(a[1]); NTL::ZZ_p r = b.generate(); j.str("e", "NextP").str("g", a[1]).nat("out", rep(r)).nats("drawn", drawn); }
  else if (o == "new" || o == "alg") {    // new T zz|text K H ALG SEED ; alg T ALG SEED
    bool mk = o == "new";
    bool txt = mk ? a[2] == "text" : ts.at(a[1])->s != nullptr;
    std::string al = mk ? a[5] : a[2];
    unsigned long seed = u64(mk ? a[6] : a[3]);
    HashAlgorithm<NTL::ZZ_p>* zal = nullptr;
    HashAlgorithm<std::string>* sal = nullptr;
    if (txt) {
      if (al == "sha1") sal = new SHAString(SHA1_FLAVOUR); else if (al == "sha256") sal = new SHAString(SHA256_FLAVOUR);
      if (sal) sa.push_back(sal);
    } else {
      if (al == "sha1") zal = new SHAZZp(SHA1_FLAVOUR); else if (al == "sha256") zal = new SHAZZp(SHA256_FLAVOUR); else if (al == "murmur") zal = new MurmurHash3((uint32_t) seed);
      if (zal) za.push_back(zal);
    }
    unsigned long s8 = (uint32_t) seed;
    if (mk) {
      size_t k = u64(a[3]), h = u64(a[4]);
      Tab* t = new Tab();
      if (txt) t->s = new TS(k, h, sal); else t->z = new TZ(k, h, zal);
      ts[a[1]] = t;
      j.str("e", "New").str("t", a[1]).boo("txt", txt).num("k", k).num("h", h);
    } else {
      if (txt) ts.at(a[1])->s->setHashAlgorithm(sal); else ts.at(a[1])->z->setHashAlgorithm(zal);
      j.str("e", "Alg").str("t", a[1]).boo("txt", txt);
    }
    j.str("alg", al).u64("seed", s8);
  }
  else if (o == "del") { delete ts.at(a[1]); ts.erase(a[1]); j.str("e", "Del").str("t", a[1]); }
  else if (o == "add" || o == "addto") {  // add T EL ; addto T I EL
    bool to = o == "addto";
    Tab* t = ts.at(a[1]);
    const std::string& x = a[to ? 3 : 2];
    J d;
    d.str("e", to ? "AddTo" : "Add").str("t", a[1]);
    if (to) d.u64("i", u64(a[2]));
    NTL::ZZ_p ez;
    std::string es;
    if (t->z) { ez = NTL::conv<NTL::ZZ_p>(zz(x)); d.raw("el", elJ(ez)); } else { es = hex2str(x); d.raw("el", elJ(es)); }
    pending(d.done());
    current = a[1]; mayEnd = true;
    if (to) { if (t->z) t->z->addToBucket(ez, u64(a[2])); else t->s->addToBucket(es, u64(a[2])); }
    else { if (t->z) t->z->add(ez); else t->s->add(es); }
    mayEnd = false;
    j = d;
  }
  else if (o == "list") {    // list T EL... : through the base class
    Tab* t = ts.at(a[1]);
    J d;
    d.str("e", "List").str("t", a[1]);
    std::string els = "[";
    std::vector<NTL::ZZ_p> vz;
    std::vector<std::string> vs;
    for (size_t i = 2; i < a.size(); i++) {
      if (i > 2) els += ",";
      if (t->z) { vz.push_back(NTL::conv<NTL::ZZ_p>(zz(a[i]))); els += elJ(vz.back()); } else { vs.push_back(hex2str(a[i])); els += elJ(vs.back()); }
    }
    d.raw("els", els + "]");
    pending(d.done());
    current = a[1]; mayEnd = true;
    if (t->z) ((HashTable<NTL::ZZ_p, MarkedVector<NTL::ZZ_p>>*) t->z)->add(vz.data(), vz.size());
    else ((HashTable<std::string, MarkedVector<std::string>>*) t->s)->add(vs.data(), vs.size());
    mayEnd = false;
    j = d;
  }
  else if (o == "get") {     // get T I : may be out of bound
    Tab* t = ts.at(a[1]);
    J d;
    d.str("e", "Get").str("t", a[1]).u64("i", u64(a[2]));
    pending(d.done());
    current = a[1]; mayEnd = true;
    std::string c;
    bool m;
    if (t->z) { auto b = t->z->getBucket(u64(a[2])); c = bucketJ(b); m = b.isMarked(); b.clear(); b.mark(!m); }
    else { auto b = t->s->getBucket(u64(a[2])); c = bucketJ(b); m = b.isMarked(); b.clear(); b.mark(!m); }
    mayEnd = false;
    j = d;
    j.raw("out", c).boo("marked", m);
  }
  else if (o == "dump") { j.str("e", "Dump").str("t", a[1]); dump(j, a[1]); }
  else if (o == "conceal") { // conceal T G
    ts.at(a[1])->z->conceal(*ps.at(a[2]));
    j.str("e", "Conceal").str("t", a[1]).str("g", a[2]).nats("drawn", drawn);
    dump(j, a[1]);
  }
  else if (o == "stats") {   // stats T FULL
    std::string s;
    bool full = a[2] == "1";
    { Capture c; if (ts.at(a[1])->z) ts.at(a[1])->z->printStats(full); else ts.at(a[1])->s->printStats(full); s = c.get(); }
    j.str("e", "Stats").str("t", a[1]).boo("full", full);
    statsJ(j, s);
  }
  else { _exit(98); }
  emit(j);
}
