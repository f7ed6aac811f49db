// Driver of the protocol: clients and clouds in one process, every delivery recorded
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/eopsiclient.h"
#include "libeopsi/eopsiserver.h"
#include "libeopsi/hashbuckets.hpp"
#include "libeopsi/shazzp.h"
#include "libeopsi/murmurhash3.h"
using namespace NTL;

static ZZ p;
static size_t L, H, D;
static std::string alg;
static unsigned seed;
static int depth = 0;
static std::string topJson;      // content of the message under way from outside

static std::string idJ(const std::string& s) { return J::bytesJ((const byte_t*) s.data(), s.size()); }
static std::vector<size_t> js, is;     // the view: which buckets and points are recorded
static std::string rowsJ(const vec_ZZ_p* m) {
  std::string s = "[";
  for (size_t j : js) {
    std::vector<ZZ> r;
    for (size_t i = 0; i < D || i < (size_t) m[j].length(); i++) if (std::count(is.begin(), is.end(), i) || i >= D) r.push_back(rep(m[j][i]));
    s += (s.size() > 1 ? "," : "") + J::natsJ(r);
  }
  return s + "]";
}
static std::string viewJ(const std::vector<size_t>& v) { std::string s = "["; for (size_t x : v) s += (s.size() > 1 ? "," : "") + std::to_string(x + 1); return s + "]"; }
static void viewOf(const std::string& s, size_t n, std::vector<size_t>& v) {
  v.clear();
  if (s == "-") { for (size_t i = 0; i < n; i++) v.push_back(i); return; }
  std::stringstream ss(s); std::string w;
  while (std::getline(ss, w, ',')) v.push_back(u64(w) - 1);
}
static std::string vecJ(const vec_ZZ& v) { std::vector<ZZ> r; for (long i = 0; i < v.length(); i++) r.push_back(v[i]); return J::natsJ(r); }
static std::vector<std::vector<vec_ZZ_p>> halves[2];  // every t and q that was seen

static void entering(const std::string& o, EOPSIMessage* m) {
  std::string c;
  if (depth == 0) c = topJson;
  else if (m->getData() == nullptr) c = "\"c\":\"null\"";
  else if (m->getType() == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST || m->getType() == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST)
    c = "\"c\":\"bytes\",\"b\":" + J::bytesJ((const byte_t*) m->getData(), m->length());
  else if (m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION || m->getType() == EOPSI_MESSAGE_POLYNOMIAL) {
    const vec_ZZ_p* v = (const vec_ZZ_p*) m->getData();
    c = "\"c\":\"rows\",\"rows\":" + rowsJ(v);
    halves[m->getType() == EOPSI_MESSAGE_POLYNOMIAL].push_back(std::vector<vec_ZZ_p>(v, v + L));
  }
  else c = "\"c\":\"other\"";
  std::string j = "\"o\":" + J::quote(o) + ",\"type\":" + std::to_string((int) m->getType()) + ",\"from\":" + idJ(m->getPartyId()) + "," + c + ",\"top\":" + (depth == 0 ? "true" : "false");
  emitLine("{\"e\":\"In\"," + j + "}");
  pending("{\"e\":\"In\",\"o\":" + J::quote(o) + "}");
  depth++;
}
static void leaving(const std::string& o, bool ok, const std::string& cap) {
  depth--;
  emit(J().str("e", "Out").str("o", o).boo("ok", ok).raw("cap", cap));
}

struct Client : public EOPSIClient {
  std::string o;
  HashBuckets<ZZ_p>* table;
  std::vector<ZZ> raw;
  std::vector<vec_ZZ_p> kept;
  ZZ* given = nullptr;
  template <class... A> Client(const std::string& n, HashBuckets<ZZ_p>* t, const ZZ& p0, size_t d0, A... a) : EOPSIClient(*t, p0, L, H, d0, a...), o(n), table(t) {}
  void receive(EOPSIMessage* m) override {
    entering(o, m);
    try { EOPSIClient::receive(m); }
    catch (ProtocolException&) { leaving(o, false, vecJ(getIntersection())); throw; }
    catch (...) { emit(J().str("e", "Other").str("o", o)); _exit(95); }
    leaving(o, true, vecJ(getIntersection()));
  }
};
struct Server : public EOPSIServer {
  std::string o;
  Server(const std::string& n, const std::string& id, const ZZ& p0, size_t d0) : EOPSIServer(p0, L, H, d0, id), o(n) {}
  void receive(EOPSIMessage* m) override {
    entering(o, m);
    try { EOPSIServer::receive(m); }
    catch (ProtocolException&) { leaving(o, false, "[]"); throw; }
    catch (...) { emit(J().str("e", "Other").str("o", o)); _exit(95); }
    leaving(o, true, "[]");
  }
};
static std::map<std::string, Client*> cs;
static std::map<std::string, Server*> ss;
static EOPSIParty* party(const std::string& o) { if (cs.count(o)) return cs[o]; return ss.at(o); }

void begin() {}
void finish() {}

static HashAlgorithm<ZZ_p>* algorithm() {
  if (alg == "sha1") return new SHAZZp(SHA1_FLAVOUR);
  if (alg == "sha256") return new SHAZZp(SHA256_FLAVOUR);
  if (alg == "murmur") return new MurmurHash3(seed);
  return nullptr;
}

static void look() {
  for (auto& i : cs) {
    Client* c = i.second;
    bool same = true;
    for (size_t j = 0; j < c->kept.size(); j++) same = same && c->getBlindedData() != nullptr && c->getBlindedData()[j] == c->kept[j];
    if (c->kept.empty()) same = same && c->getBlindedData() == nullptr;
    same = same && c->getRawData() == c->given;
    for (size_t j = 0; j < c->raw.size(); j++) same = same && c->given[j] == c->raw[j];
    emit(J().str("e", "Look").str("o", i.first).raw("cap", vecJ(c->getIntersection())).nat("secret", c->getSecret()).num("raws", (long) c->getRawDataSize()).num("size", (long) c->getBlindedDataSize()).boo("same", same));
  }
}

// the content of a message:  null | blind O | req O | raw HEX LEN | half N
static size_t content(const Args& a, size_t at, EOPSIMessage& m) {
  const std::string& k = a[at];
  if (k == "null") { m.setData(nullptr, at + 1 < a.size() ? u64(a[at + 1]) : 0); topJson = "\"c\":\"null\""; }
  else if (k == "blind") {
    Client* c = cs.at(a[at + 1]);
    m.setData(c->getBlindedData(), c->getBlindedDataSize());
    topJson = c->getBlindedData() == nullptr ? "\"c\":\"null\"" : "\"c\":\"rows\",\"rows\":" + rowsJ(c->getBlindedData());
  }
  else if (k == "req") {
    Client* c = cs.at(a[at + 1]);
    std::string id = c->getId();
    size_t nb = (size_t) NumBytes(c->getSecret()), len = id.size() + nb + 2;
    byte* d = new byte[len];
    memcpy(d, id.c_str(), id.size() + 1);
    BytesFromZZ(d + id.size() + 1, c->getSecret(), nb);
    d[len - 1] = 0;
    m.setData(d, len);
    topJson = "\"c\":\"bytes\",\"b\":" + J::bytesJ(d, len);
  }
  else if (k == "raw") {
    Bytes b = hex2bytes(a[at + 1]);
    size_t len = u64(a[at + 2]);
    byte* d = new byte[b.size()];
    memcpy(d, b.data(), b.size());
    m.setData(d, len);
    topJson = "\"c\":\"bytes\",\"b\":" + J::bytesJ(d, len < b.size() ? len : b.size());
  }
  else if (k == "half" || k == "oldt" || k == "oldq") {
    vec_ZZ_p* v = new vec_ZZ_p[L];
    unsigned long n = u64(a[at + 1]);
    auto& old = halves[k == "oldq"];
    for (size_t j = 0; j < L; j++) {
      if (k != "half" && !old.empty()) { v[j] = old[n % old.size()][j]; continue; }
      v[j].SetLength(D);
      for (size_t i = 0; i < D; i++) conv(v[j][i], to_ZZ((long) (n * 1000003 + 7919 * i + 104729 * j + n * i * i + (k == "oldq"))));
    }
    m.setData(v, 1);
    topJson = "\"c\":\"rows\",\"rows\":" + rowsJ(v);
  }
  return 0;
}

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "ctx") {          // ctx P L H D ALG SEED [BUCKETS|- POINTS|-]
    p = zz(a[1]); L = u64(a[2]); H = u64(a[3]); D = u64(a[4]); alg = a[5]; seed = (unsigned) u64(a[6]);
    ZZ_p::init(p);
    viewOf(a.size() > 7 ? a[7] : "-", L, js);
    viewOf(a.size() > 8 ? a[8] : "-", D, is);
    j.str("e", "Ctx").nat("p", p).num("L", L).num("h", H).num("D", D).str("alg", alg).u64("seed", (unsigned long) seed).raw("js", viewJ(js)).raw("is", viewJ(is));
  }
  else if (o == "client") {  // client O IDHEX zz DEC | bytes HEX  [P0 D0]: made with these, and the world's set afterwards
    ZZ p0 = a.size() > 5 ? zz(a[5]) : p;
    size_t d0 = a.size() > 6 ? u64(a[6]) : D;
    HashBuckets<ZZ_p>* t = new HashBuckets<ZZ_p>(L, H, algorithm());
    std::string id = hex2str(a[2]);
    Client* c;
    if (a[3] == "zz") c = new Client(a[1], t, p0, d0, id, zz(a[4]));
    else { Bytes b = hex2bytes(a[4]); c = new Client(a[1], t, p0, d0, id, (const byte*) b.data(), b.size()); }
    cs[a[1]] = c;
    if (a.size() > 6) { c->setDegree(D); c->setFieldsize(p); }
    j.str("e", "Client").str("o", a[1]).raw("id", idJ(id));
    if (a[3] == "zz") j.nat("secret", zz(a[4])).str("how", "zz"); else j.bytes("secret", hex2bytes(a[4])).str("how", "bytes");
  }
  else if (o == "server") {  // server O IDHEX [P0 D0]
    ss[a[1]] = new Server(a[1], hex2str(a[2]), a.size() > 3 ? zz(a[3]) : p, a.size() > 4 ? u64(a[4]) : D);
    if (a.size() > 4) { ss[a[1]]->setFieldsize(p); ss[a[1]]->setDegree(D); }
 j.str("e", "Server").str("o", a[1]).raw("id", idJ(hex2str(a[2]))); }
  else if (o == "move") {     // sets only what is another
    if (ss.at(a[1])->getDegree() != D) ss[a[1]]->setDegree(D);
    if (ss[a[1]]->getFieldsize() != p) ss[a[1]]->setFieldsize(p);
    j.str("e", "Move").str("o", a[1]);
  }      // a cloud follows to the world of the latest ctx
  else if (o == "drop") {     // drop O...: nobody refers to these clients any more
    std::string l = "[";
    for (size_t i = 1; i < a.size(); i++) { delete cs.at(a[i]); cs.erase(a[i]); l += (i > 1 ? "," : "") + J::quote(a[i]); }
    j.str("e", "Drop").raw("os", l + "]");
  }
  else if (o == "keylike") {  // keylike START POS HEX: the next 128 random bits (the first bit set) have these bytes at POS, if such are found soon
    Bytes want = hex2bytes(a[3]);
    size_t at = num(a[2]);
    ZZ start = zz(a[1]), z;
    for (long k = 0; k < 400000; k++) {
      NTL::SetSeed(start + k);
      do { z = NTL::RandomBits_ZZ(128); } while (NTL::NumBits(z) < 128);
      unsigned char b[16];
      NTL::BytesFromZZ(b, z, 16);
      if (memcmp(b + at, want.data(), want.size()) == 0) { NTL::SetSeed(start + k); return; }
    }
    return;
  }
  else if (o == "auth") { party(a[1])->authenticate(*party(a[2])); j.str("e", "Auth").str("o", a[1]).str("s", a[2]); }
  else if (o == "knows") { j.str("e", "Knows").str("o", a[1]).raw("id", idJ(hex2str(a[2]))).boo("r", party(a[1])->hasAuthenticated(hex2str(a[2]))); }
  else if (o == "knowsp") { j.str("e", "Knows").str("o", a[1]).raw("id", idJ(party(a[2])->getId())).boo("r", party(a[1])->hasAuthenticated(*party(a[2]))); }
  else if (o == "setid") { party(a[1])->setId(hex2str(a[2])); j.str("e", "SetId").str("o", a[1]).raw("id", idJ(hex2str(a[2]))); }
  else if (o == "secret") { cs.at(a[1])->setSecret(zz(a[2])); j.str("e", "Secret").str("o", a[1]).nat("secret", zz(a[2])); }
  else if (o == "data") {    // data O BITS THREADS EL...
    Client* c = cs.at(a[1]);
    size_t n = a.size() - 4;
    std::vector<ZZ> raw;
    for (size_t i = 0; i < n; i++) raw.push_back(zz(a[4 + i]));
    J d; d.str("e", "Data").str("o", a[1]).num("bits", num(a[2])).nats("raw", raw);
    pending(d.done());
    ZZ* g = new ZZ[n ? n : 1];
    for (size_t i = 0; i < n; i++) g[i] = raw[i];
    if (a[3] == "x") c->setRawData(n ? g : nullptr, n, u64(a[2])); else c->setRawData(g, n, u64(a[2]), (unsigned) num(a[3]));
    j = d;
    if (n) {
      c->given = g; c->raw = raw;
      std::string cells = "[";
      for (size_t b : js) {
        std::vector<ZZ> v;
        auto k = (*c->table)[b];
        for (size_t x = 0; x < k.size(); x++) v.push_back(rep(k[x]));
        cells += (cells.size() > 1 ? "," : "") + J::natsJ(v);
      }
      c->kept.assign(c->getBlindedData(), c->getBlindedData() + L);
      j.raw("cells", cells + "]").raw("rows", rowsJ(c->getBlindedData()));
    }
    j.num("size", (long) c->getBlindedDataSize()).num("raws", (long) c->getRawDataSize());
  }
  else if (o == "send" || o == "recv" || o == "resend") {    // send S TO TYPE FROM CONTENT    recv TO TYPE FROM CONTENT;   resend: as send, always the same object
    size_t k = o == "recv" ? 0 : 1;
    static EOPSIMessage* always = new EOPSIMessage();
    EOPSIMessage* m = o == "resend" ? always : new EOPSIMessage();
    m->setType((EOPSIMessageType) num(a[2 + k]));
    m->setPartyId(a[3 + k] == "=" ? party(a[1])->getId() : hex2str(a[3 + k]));
    content(a, 4 + k, *m);
    std::string r = "ok";
    try { if (k) party(a[1])->send(*party(a[2]), m); else party(a[1])->receive(m); }
    catch (ProtocolException& e) { r = e.getMessage().empty() ? "silent" : "refused"; }
    catch (...) { r = "other"; }
    emit(J().str("e", "Sent").str("r", r).raw("from", idJ(m->getPartyId())).num("type", (long) m->getType()));
    if (a[4 + k] == "blind") m->setData((void*) (size_t) 0x10, 3);     // the message is the caller's, and may be used again
    pending("{\"e\":\"Look\"}");
    look();
    return;
  }
  else if (o == "sendnull") {
    std::string r = "ok";
    try { party(a[1])->send(*party(a[2]), nullptr); } catch (ProtocolException&) { r = "refused"; } catch (...) { r = "other"; }
    j.str("e", "SendNull").str("o", a[2]).str("r", r);
  }
  else if (o == "ask") {     // ask O TYPE FROM
    EOPSIMessage m;
    m.setType((EOPSIMessageType) num(a[2]));
    m.setPartyId(hex2str(a[3]));
    if (a[4] != "null") m.setData((void*) "x", 1);
    j.str("e", "Ask").str("o", a[1]).num("type", num(a[2])).raw("from", idJ(hex2str(a[3]))).boo("r", party(a[1])->isAuthorised(&m));
  }
  else if (o == "asknull") { j.str("e", "AskNull").str("o", a[1]).boo("r", party(a[1])->isAuthorised(nullptr)); }
  else { _exit(98); }
  emit(j);
}
