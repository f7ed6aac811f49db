// Driver of the digests
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/shabyte.h"
#include "libeopsi/shastr.h"
#include "libeopsi/shazzp.h"
#include "libeopsi/murmurhash3.h"

struct Alg {
  std::string kind;
  SHAByteArray* b = nullptr;
  SHAString* s = nullptr;
  SHAZZp* z = nullptr;
  MurmurHash3* m = nullptr;
  const byte_t* last = nullptr;      // what the last request returned
  ~Alg() { delete b; delete s; delete z; delete m; }
  size_t size() { return b ? b->hashSize() : s ? s->hashSize() : z ? z->hashSize() : m->hashSize(); }
  std::string name() { return b ? b->name() : s ? s->name() : z ? z->name() : m->name(); }
};
static std::map<std::string, Alg*> as;
void begin() {}
void finish() { for (auto& i : as) delete i.second; }

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "ctx") { NTL::ZZ_p::init(zz(a[1])); j.str("e", "Ctx").nat("p", zz(a[1])); }
  else if (o == "new") {     // new G KIND FLAVOUR|SEED|x
    Alg* g = new Alg();
    g->kind = a[2];
    j.str("e", "New").str("g", a[1]).str("kind", a[2]);
    if (a[2] == "murmur") {
      if (a[3] == "x") { g->m = new MurmurHash3(); j.num("flavour", 128).raw("seed", "[]"); }
      else { uint32_t sd = (uint32_t) u64(a[3]); unsigned long s8 = sd; g->m = new MurmurHash3(sd); j.num("flavour", 128).raw("seed", "[" + J::bytesJ((byte_t*) &s8, 8) + "]"); }
    } else {
      bool d = a[3] == "x";
      HashFlavour f = d ? SHA1_FLAVOUR : (HashFlavour) num(a[3]);
      if (a[2] == "bytes") g->b = d ? new SHAByteArray() : new SHAByteArray(f);
      else if (a[2] == "text") g->s = d ? new SHAString() : new SHAString(f);
      else g->z = d ? new SHAZZp() : new SHAZZp(f);
      j.num("flavour", f).raw("seed", "[]");
    }
    as[a[1]] = g;
  }
  else if (o == "copy") {    // copy G OF
    Alg *f = as.at(a[2]), *g = new Alg();
    g->kind = f->kind;
    if (f->b) g->b = new SHAByteArray(*f->b); else if (f->s) g->s = new SHAString(*f->s); else _exit(98);
    as[a[1]] = g;
    j.str("e", "Copy").str("g", a[1]).str("of", a[2]);
  }
  else if (o == "assign") {
    Alg *f = as.at(a[2]), *g = as.at(a[1]);
    if (f->b && g->b) *g->b = *f->b; else if (f->s && g->s) *g->s = *f->s; else _exit(98);
    if (f != g) g->last = nullptr;
    j.str("e", "Assign").str("g", a[1]).str("of", a[2]);
  }
  else if (o == "del") { delete as.at(a[1]); as.erase(a[1]); j.str("e", "Del").str("g", a[1]); }
  else if (o == "hash") {    // hash G HEX LEN : bytes or text
    Alg* g = as.at(a[1]);
    Bytes d = hex2bytes(a[2]);
    size_t len = (size_t) u64(a[3]);
    Bytes exact(d);            // no spare bytes behind the content
    byte_t none = 0;
    const byte_t* r;
    if (g->b) r = g->b->hash(exact.empty() ? &none : exact.data(), len);
    else r = a.size() > 4 ? g->s->hash(std::string(d.begin(), d.end())) : g->s->hash(std::string(d.begin(), d.end()), len);
    g->last = r;
    j.str("e", "Hash").str("g", a[1]).bytes("data", d).num("len", a.size() > 4 ? 0 : len).raw("out", r ? J::bytesJ(r, g->size()) : "[]").boo("intact", exact == d);
  }
  else if (o == "hashnull") {
    Alg* g = as.at(a[1]);
    const byte_t* r = g->b->hash(nullptr, (size_t) u64(a[2]));
    g->last = nullptr;
    j.str("e", "HashNull").str("g", a[1]).boo("null", r == nullptr);
  }
  else if (o == "el") {      // el G N LEN : field elements
    Alg* g = as.at(a[1]);
    NTL::ZZ_p e = NTL::conv<NTL::ZZ_p>(zz(a[2]));
    size_t len = (size_t) u64(a[3]);
    const byte_t* r = g->z ? g->z->hash(e, len) : g->m->hash(e, len);
    g->last = r;
    j.str("e", "HashEl").str("g", a[1]).nat("n", rep(e)).num("len", len).raw("out", J::bytesJ(r, g->size()));
  }
  else if (o == "peek") {    // reads what was returned last again
    Alg* g = as.at(a[1]);
    j.str("e", "Peek").str("g", a[1]).raw("out", g->last ? J::bytesJ(g->last, g->size()) : "[]");
  }
  else if (o == "info") { j.str("e", "Info").str("g", a[1]).num("size", as.at(a[1])->size()).str("name", as.at(a[1])->name()); }
  else if (o == "readable") {
    Bytes d = hex2bytes(a[1]);
    j.str("e", "Readable").bytes("data", d).text("out", HashAlgorithm<std::string>::readableDigest(d.data(), d.size()));
  }
  else { _exit(98); }
  emit(j);
}
