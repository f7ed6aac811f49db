// Driver of the byte-string numbers
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/strint.h"

static std::map<std::string, StrInt*> zs;
void begin() {}
void finish() { for (auto& i : zs) delete i.second; }

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "new") {          // new G BYTES [HEX]
    size_t n = (size_t) u64(a[2]);
    if (a.size() > 3) {
      Bytes d = hex2bytes(a[3]);
      Bytes keep = d;
      zs[a[1]] = new StrInt(n, d.data() ? d.data() : (byte_t*) "", d.size());
      j.str("e", "New").str("g", a[1]).num("bytes", n).bytes("data", keep).boo("intact", d == keep);
    } else {
      zs[a[1]] = new StrInt(n);
      j.str("e", "New").str("g", a[1]).num("bytes", n).bytes("data", Bytes()).boo("intact", true);
    }
  }
  else if (o == "del") { delete zs.at(a[1]); zs.erase(a[1]); j.str("e", "Del").str("g", a[1]); }
  else if (o == "setnum") { zs.at(a[1])->set(u64(a[2])); j.str("e", "SetNum").str("g", a[1]).u64("n", u64(a[2])); }
  else if (o == "set") {     // set G HEX
    Bytes d = hex2bytes(a[2]), keep = d;
    byte_t none = 0;
    zs.at(a[1])->set(d.empty() ? &none : d.data(), d.size());
    j.str("e", "Set").str("g", a[1]).bytes("data", keep).boo("intact", d == keep);
  }
  else if (o == "sets") {    // sets G HEX: set, and look at it
    op(Args{"set", a[1], a[2]});
    op(Args{"str", a[1]});
    return;
  }
  else if (o == "inc") { zs.at(a[1])->inc(); j.str("e", "Inc").str("g", a[1]); }
  else if (o == "add") { zs.at(a[1])->add(u64(a[2])); j.str("e", "Add").str("g", a[1]).u64("n", u64(a[2])); }
  else if (o == "rem") { j.str("e", "Rem").str("g", a[1]).u64("d", u64(a[2])).u64("out", zs.at(a[1])->rem(u64(a[2]))); }
  else if (o == "lsb") { j.str("e", "Lsb").str("g", a[1]).u64("out", zs.at(a[1])->lsb()); }
  else if (o == "size") { j.str("e", "Size").str("g", a[1]).num("out", zs.at(a[1])->getByteSize()); }
  else if (o == "str") {
    std::ostringstream s;
    s << *zs.at(a[1]);
    j.str("e", "Str").str("g", a[1]).text("out", zs.at(a[1])->toString()).text("shown", s.str());
  }
  else if (o == "bytes") {   // bytes G CAP : -1 no buffer; -2 buffer without length; -3 no buffer, no length; otherwise CAP is relative to the needed size
    StrInt* s = zs.at(a[1]);
    long c = num(a[2]);
    size_t need = s->getByteSize();
    if (c <= -100) {         // no buffer
      bool withLen = c == -100;
      size_t len = withLen ? 1 << 20 : 0;
      byte_t* r = s->toBytes(nullptr, withLen ? &len : nullptr);
      j.str("e", "Bytes").str("g", a[1]).num("cap", 0).boo("own", r != nullptr).num("len", withLen ? (long) len : -1)
        .raw("out", J::bytesJ(r, withLen ? len : need)).boo("intact", true);
      delete [] r;
    } else {
      bool withLen = a.size() < 4;
      size_t cap = (long) need + c < 0 ? 0 : need + c;
      Bytes buf(cap + 4, 0xA5);
      size_t len = cap;
      byte_t* r = s->toBytes(buf.data(), withLen ? &len : nullptr);
      bool own = r != buf.data();
      size_t n = withLen ? len : need;
      bool intact = true;
      for (size_t i = own ? 0 : n; i < buf.size(); i++) intact = intact && buf[i] == 0xA5;
      j.str("e", "Bytes").str("g", a[1]).num("cap", withLen ? (long) cap : 0).boo("own", own).num("len", withLen ? (long) len : -1)
        .raw("out", J::bytesJ(r, n)).boo("intact", intact);
      if (own) delete [] r;
    }
  }
  else { _exit(98); }
  emit(j);
}
