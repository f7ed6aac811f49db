// Driver of the errors
#define HARNESS_MAIN
#include "harness.h"
#include <functional>
#include <thread>
#include "libeopsi/exception.h"
#include "libeopsi/outofboundex.h"
#include "libeopsi/protocolex.h"

static std::map<std::string, Exception*> es;
static std::map<std::string, std::string> kinds;
static std::map<std::string, const char*> held;
static bool leaving = false;
void begin() {}
void finish() { for (auto& i : es) delete i.second; }

// Somewhere an error can be made: plainly, in a handler of another error,
// in a destructor while another error is on its way, in another thread
struct Unwinder { std::function<void()> f; ~Unwinder() noexcept { f(); } };
static void in(const std::string& where, const std::function<void()>& f) {
  if (where == "handler") { try { throw std::runtime_error("other"); } catch (...) { f(); } }
  else if (where == "unwinding") { try { Unwinder u{f}; throw std::runtime_error("other"); } catch (std::runtime_error&) { } }
  else if (where == "within") { try { try { throw Exception("other"); } catch (Exception&) { Unwinder u{f}; throw ProtocolException("third"); } } catch (Exception&) { } }
  else if (where == "thread") { std::thread t(f); t.join(); }
  else f();
}

static Exception* make(const Args& a) {     // KIND MSG|x FATAL|x CODE|x
  const std::string& k = a[2];
  std::string m = a[3] == "x" ? "" : hex2str(a[3]);
  bool f = a[4] == "1";
  if (k == "general") return a[5] != "x" ? new Exception(m, f, num(a[5])) : a[4] != "x" ? new Exception(m, f) : a[3] != "x" ? new Exception(m) : new Exception();
  if (k == "protocol") return a[5] != "x" ? new ProtocolException(m, f, num(a[5])) : a[4] != "x" ? new ProtocolException(m, f) : a[3] != "x" ? new ProtocolException(m) : new ProtocolException();
  return a[4] != "x" ? new OutOfBoundException(m, f) : a[3] != "x" ? new OutOfBoundException(m) : new OutOfBoundException();
}

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "make") {         // make G KIND MSG FATAL CODE [WHERE]
    J d;
    d.str("e", "Make").str("g", a[1]).str("kind", a[2]).text("msg", a[3] == "x" ? "" : hex2str(a[3])).boo("fatal", a[4] == "1").num("code", a[5] == "x" || a[2] == "bound" ? 1 : num(a[5]));
    pending(d.done());
    Exception* e = nullptr;
    in(a.size() > 6 ? a[6] : "", [&] { e = make(a); });
    if (!e) _exit(96);
    es[a[1]] = e;
    kinds[a[1]] = a[2];
    j = d;
  }
  else if (o == "copy") {
    const std::string& k = kinds.at(a[2]);
    Exception* f = es.at(a[2]);
    es[a[1]] = k == "general" ? new Exception(*f) : k == "protocol" ? (Exception*) new ProtocolException(*(ProtocolException*) f) : new OutOfBoundException(*(OutOfBoundException*) f);
    kinds[a[1]] = k;
    j.str("e", "Copy").str("g", a[1]).str("of", a[2]);
  }
  else if (o == "assign") { *es.at(a[1]) = *es.at(a[2]); j.str("e", "Assign").str("g", a[1]).str("of", a[2]); }
  else if (o == "del") { delete es.at(a[1]); es.erase(a[1]); kinds.erase(a[1]); j.str("e", "Del").str("g", a[1]); }
  else if (o == "setmsg") { es.at(a[1])->setMessage(a[2] == "x" ? "" : hex2str(a[2])); j.str("e", "SetMsg").str("g", a[1]).text("msg", a[2] == "x" ? "" : hex2str(a[2])); }
  else if (o == "setfatal") { if (a[2] == "x") es.at(a[1])->setFatal(); else es.at(a[1])->setFatal(a[2] == "1"); j.str("e", "SetFatal").str("g", a[1]).boo("fatal", a[2] != "0"); }
  else if (o == "setcode") { es.at(a[1])->setExitCode(num(a[2])); j.str("e", "SetCode").str("g", a[1]).num("code", num(a[2])); }
  else if (o == "get") {
    Exception* e = es.at(a[1]);
    j.str("e", "Get").str("g", a[1]).text("msg", e->getMessage()).text("what", e->what()).boo("fatal", e->isFatal()).num("code", e->getExitCode());
  }
  else if (o == "hold") { held[a[1]] = es.at(a[1])->what(); j.str("e", "Hold").str("g", a[1]); }   // its explanation is kept
  else if (o == "held") { j.str("e", "Held").str("g", a[1]).text("msg", es.at(a[1])->getMessage()).text("what", held.at(a[1])); }
  else if (o == "throw") {   // throw G : thrown by its own kind, caught as each kind
    const std::string& k = kinds.at(a[1]);
    Exception* e = es.at(a[1]);
    auto fire = [&] { if (k == "general") throw *e; if (k == "protocol") throw *(ProtocolException*) e; throw *(OutOfBoundException*) e; };
    std::string std_, first;
    bool fatal = false;
    long code = 0;
    std::string msg;
    try { fire(); } catch (std::exception& x) { std_ = x.what(); }
    try { fire(); } catch (ProtocolException&) { first = "protocol"; } catch (OutOfBoundException&) { first = "bound"; } catch (Exception&) { first = "general"; } catch (...) { first = "other"; }
    try { fire(); } catch (Exception& x) { msg = x.getMessage(); fatal = x.isFatal(); code = x.getExitCode(); }
    j.str("e", "Throw").str("g", a[1]).text("what", std_).str("caught", first).text("msg", msg).boo("fatal", fatal).num("code", code);
  }
  else { _exit(98); }
  emit(j);
}
