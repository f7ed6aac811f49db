// Driver of messages and parties
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/eopsiclient.h"
#include "libeopsi/eopsiserver.h"
#include "libeopsi/hashbuckets.hpp"
#include "libeopsi/protocolex.h"
using namespace NTL;

static std::map<std::string, EOPSIMessage*> ms;
static std::map<std::string, EOPSIParty*> ps;
static std::vector<std::string> order;
static std::vector<std::pair<std::string, EOPSIMessage*>> got;
static std::string say;          // what the next receiver throws, if anything
static std::vector<std::string> asked;
static char pool[64];

static void arrived(const std::string& o, EOPSIMessage* m) {
  got.push_back(std::make_pair(o, m));
  if (!say.empty()) throw ProtocolException(say);
}
// parties of all sorts, which only note what arrives
struct Stub : public EOPSIParty {
  std::string o;
  Stub(const std::string& n, EOPSIPartyType k, const ZZ& p, size_t d, const std::string& id) : EOPSIParty(k, p, 2, 3, d, id), o(n) {}
  void receive(EOPSIMessage* m) override { arrived(o, m); }
  bool isAuthorised(const EOPSIMessage*) const override { return false; }
};
struct Client : public EOPSIClient {
  std::string o;
  Client(const std::string& n, HashBuckets<ZZ_p>& t, const ZZ& p, size_t d, const std::string& id) : EOPSIClient(t, p, 2, 3, d, id, ZZ(7)), o(n) {}
  void receive(EOPSIMessage* m) override { arrived(o, m); }
};
struct Server : public EOPSIServer {
  std::string o;
  Server(const std::string& n, const ZZ& p, size_t d, const std::string& id) : EOPSIServer(p, 2, 3, d, id), o(n) {}
  void receive(EOPSIMessage* m) override { arrived(o, m); }
};

static std::string idJ(const std::string& s) { return J::bytesJ((const byte_t*) s.data(), s.size()); }
static std::string dataJ(const void* d) {
  if (d == nullptr) return "\"null\"";
  if (d >= pool && d < pool + sizeof pool) return "\"p" + std::to_string((const char*) d - pool) + "\"";
  return "\"elsewhere\"";
}
static void* dataOf(const std::string& s) { return s == "null" ? nullptr : (void*) (pool + num(s)); }
static std::string lenJ(unsigned long v) { return J::bytesJ((const byte_t*) &v, 8); }

static void done(J& j) {
  std::string m = "[";
  for (auto& i : ms)
    m += (m.size() > 1 ? "," : "") + J().str("m", i.first).raw("id", idJ(i.second->getPartyId())).num("type", (long) i.second->getType()).raw("data", dataJ(i.second->getData())).raw("len", lenJ(i.second->length())).done();
  j.raw("msgs", m + "]");
  std::string p = "[";
  for (auto& i : ps) {
    std::string k = "[";
    for (auto& q : ps) k += (k.size() > 1 ? "," : "") + ("[" + idJ(q.second->getId()) + "," + (i.second->hasAuthenticated(*q.second) ? "true" : "false") + "]");
    for (auto& q : asked) k += "," + ("[" + idJ(q) + "," + (i.second->hasAuthenticated(q) ? "true" : "false") + "]");
    std::string t = "[";
    for (auto& m : ms) t += (t.size() > 1 ? ",[" : "[") + J::quote(m.first) + "," + (i.second->isAuthorised(m.second) ? "true" : "false") + "]";
    p += (p.size() > 1 ? "," : "") + J().str("o", i.first).num("kind", (long) i.second->getType()).raw("id", idJ(i.second->getId())).nat("field", i.second->getFieldsize()).raw("degree", lenJ(i.second->getDegree())).raw("knows", k + "]").raw("takes", t + "]").done();
  }
  j.raw("parties", p + "]");
  emit(j);
}

void begin() { ZZ_p::init(ZZ(1000003)); }
void finish() { for (auto& i : ms) delete i.second; for (auto& i : ps) delete i.second; ms.clear(); ps.clear(); }

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "mnew") {            // mnew M [DATA [LEN [TYPE]]]
    delete (ms.count(a[1]) ? ms[a[1]] : nullptr);
    size_t n = a.size();
    ms[a[1]] = n == 2 ? new EOPSIMessage() : n == 3 ? new EOPSIMessage(dataOf(a[2])) : n == 4 ? new EOPSIMessage(dataOf(a[2]), u64(a[3])) : new EOPSIMessage(dataOf(a[2]), u64(a[3]), (EOPSIMessageType) num(a[4]));
    j.str("e", "MNew").str("m", a[1]).raw("data", dataJ(n > 2 ? dataOf(a[2]) : nullptr)).raw("len", lenJ(n > 3 ? u64(a[3]) : 0)).num("type", n > 4 ? num(a[4]) : (long) EOPSI_MESSAGE_UNKNOWN);
  }
  else if (o == "mcopy") {
    if (ms.count(a[1])) *ms[a[1]] = *ms.at(a[2]); else ms[a[1]] = new EOPSIMessage(*ms.at(a[2]));
    j.str("e", "MCopy").str("m", a[1]).str("x", a[2]);
  }
  else if (o == "mid") { ms.at(a[1])->setPartyId(hex2str(a[2])); j.str("e", "MId").str("m", a[1]).raw("v", idJ(hex2str(a[2]))); }
  else if (o == "mtype") { ms.at(a[1])->setType((EOPSIMessageType) num(a[2])); j.str("e", "MType").str("m", a[1]).num("v", num(a[2])); }
  else if (o == "mdata") {
    if (a.size() > 3) ms.at(a[1])->setData(dataOf(a[2]), u64(a[3])); else ms.at(a[1])->setData(dataOf(a[2]));
    j.str("e", "MData").str("m", a[1]).raw("data", dataJ(dataOf(a[2]))).raw("len", lenJ(a.size() > 3 ? u64(a[3]) : 0));
  }
  else if (o == "pnew") {       // pnew O SORT KIND IDHEX FIELD DEGREE
    long kind = num(a[3]);
    std::string id = hex2str(a[4]);
    ZZ f = zz(a[5]);
    if (a[2] == "client") { ps[a[1]] = new Client(a[1], *new HashBuckets<ZZ_p>(2, 3), f, u64(a[6]), id); kind = (long) EOPSI_PARTY_CLIENT; }
    else if (a[2] == "server") { ps[a[1]] = new Server(a[1], f, u64(a[6]), id); kind = (long) EOPSI_PARTY_SERVER; }
    else ps[a[1]] = new Stub(a[1], (EOPSIPartyType) kind, f, u64(a[6]), id);
    j.str("e", "PNew").str("o", a[1]).str("sort", a[2]).num("kind", kind).raw("id", idJ(id)).nat("field", f).raw("degree", lenJ(u64(a[6])));
  }
  else if (o == "pset") {       // pset O F V
    EOPSIParty* p = ps.at(a[1]);
    j.str("e", "PSet").str("o", a[1]).str("f", a[2]);
    if (a[2] == "id") { p->setId(hex2str(a[3])); j.raw("v", idJ(hex2str(a[3]))); }
    else if (a[2] == "kind") { p->setType((EOPSIPartyType) num(a[3])); j.num("v", num(a[3])); }
    else if (a[2] == "field") { p->setFieldsize(zz(a[3])); j.nat("v", zz(a[3])); }
    else { p->setDegree(u64(a[3])); j.raw("v", lenJ(u64(a[3]))); }
  }
  else if (o == "auth") { ps.at(a[1])->authenticate(*ps.at(a[2])); j.str("e", "Auth").str("o", a[1]).str("s", a[2]); }
  else if (o == "send") {       // send O S M|null [TEXT]
    say = a.size() > 4 ? a[4] : "";
    got.clear();
    std::string r = "ok", text = say;
    try { ps.at(a[1])->send(*ps.at(a[2]), a[3] == "null" ? nullptr : ms.at(a[3])); }
    catch (ProtocolException& e) { r = "refused"; if (a[3] == "null") r = e.getMessage().empty() ? "silent" : "null"; else text = e.getMessage(); }
    catch (...) { r = "other"; }
    std::string g = "[";
    for (auto& i : got) {
      std::string n = "?";
      for (auto& m : ms) if (m.second == i.second) n = m.first;
      g += (g.size() > 1 ? ",[" : "[") + J::quote(i.first) + "," + J::quote(n) + "]";
    }
    j.str("e", "Send").str("o", a[1]).str("s", a[2]).str("m", a[3]).str("ends", say.empty() ? "ok" : "refused").raw("got", g + "]").str("r", r).str("said", say).str("text", text);
  }
  else if (o == "askfor") { asked.push_back(hex2str(a[1])); return; }
  else _exit(98);
  done(j);
}
