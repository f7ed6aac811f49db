// Driver of the pseudo-random generators (integers and field elements)
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/zzprf.h"
#include "libeopsi/zzpprf.h"

static std::vector<NTL::ZZ> drawn;     // seeds drawn by the generators themselves

struct TPrf : public ZZPRF {
  NTL::ZZ randomSeed() override { NTL::ZZ s = ZZPRF::randomSeed(); drawn.push_back(s); return s; }
};
struct TPPrf : public ZZpPRF {
  TPPrf(NTL::ZZ m, ZZPRF* p = nullptr) : ZZpPRF(m, p) {}
  NTL::ZZ_p randomSeed() override { NTL::ZZ_p s = ZZpPRF::randomSeed(); drawn.push_back(rep(s)); return s; }
};

static std::map<std::string, TPrf*> zs;
static std::map<std::string, TPPrf*> ps;

void begin() {}
void finish() {
  for (auto& i : zs) delete i.second;
  for (auto& i : ps) delete i.second;
}

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  drawn.clear();
  if (o == "srand") { srand(num(a[1])); return; }
  else if (o == "ctx") { NTL::ZZ_p::init(zz(a[1])); j.str("e", "Ctx").nat("p", zz(a[1])); }
  else if (o == "new") { zs[a[1]] = new TPrf(); j.str("e", "New").str("g", a[1]); }
  else if (o == "copy") { zs[a[1]] = new TPrf(*zs.at(a[2])); j.str("e", "Copy").str("g", a[1]).str("of", a[2]); }
  else if (o == "assign") { *zs.at(a[1]) = *zs.at(a[2]); j.str("e", "Copy").str("g", a[1]).str("of", a[2]); }
  else if (o == "del") { delete zs.at(a[1]); zs.erase(a[1]); j.str("e", "Del").str("g", a[1]); }
  else if (o == "gen") {   // gen G SEED POS BITS
    NTL::ZZ r = zs.at(a[1])->generate(zz(a[2]), (size_t) u64(a[3]), (size_t) u64(a[4]));
    j.str("e", "Gen").str("g", a[1]).nat("seed", zz(a[2])).u64("pos", u64(a[3])).num("bits", num(a[4])).nat("out", r).nats("drawn", drawn);
  }
  else if (o == "auto") {  // auto G POS BITS : no seed given
    NTL::ZZ r = zs.at(a[1])->generate((size_t) u64(a[2]), (size_t) u64(a[3]));
    j.str("e", "Auto").str("g", a[1]).u64("pos", u64(a[2])).num("bits", num(a[3])).nat("out", r).nats("drawn", drawn);
  }
  else if (o == "default") {
    j.str("e", "Default").str("g", a[1]).nat("out", zs.at(a[1])->defaultSeed());
  }
  // field elements
  else if (o == "newp") {  // newp G MOD [of integer generator]
    ps[a[1]] = new TPPrf(zz(a[2]), a.size() > 3 ? zs.at(a[3]) : nullptr);
    j.str("e", "NewP").str("g", a[1]).nat("m", zz(a[2]));
  }
  else if (o == "copyp") { ps[a[1]] = new TPPrf(*ps.at(a[2])); j.str("e", "CopyP").str("g", a[1]).str("of", a[2]); }
  else if (o == "assignp") { *ps.at(a[1]) = *ps.at(a[2]); j.str("e", "CopyP").str("g", a[1]).str("of", a[2]); }
  else if (o == "delp") { delete ps.at(a[1]); ps.erase(a[1]); j.str("e", "DelP").str("g", a[1]); }
  else if (o == "setmod") { ps.at(a[1])->setModulo(zz(a[2])); j.str("e", "SetMod").str("g", a[1]).nat("m", zz(a[2])); }
  else if (o == "getmod") { j.str("e", "GetMod").str("g", a[1]).nat("out", ps.at(a[1])->getModulo()); }
  else if (o == "genp") {  // genp G SEED POS BITS
    NTL::ZZ_p s = NTL::conv<NTL::ZZ_p>(zz(a[2]));
    NTL::ZZ_p r = a[4] == "x" ? ps.at(a[1])->generate(s, (size_t) u64(a[3])) : ps.at(a[1])->generate(s, (size_t) u64(a[3]), (size_t) u64(a[4]));
    j.str("e", "GenP").str("g", a[1]).nat("seed", rep(s)).u64("pos", u64(a[3])).num("bits", a[4] == "x" ? 0 : num(a[4])).nat("out", rep(r)).nats("drawn", drawn);
  }
  else if (o == "autop") { // autop G POS BITS
    PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>& b = *ps.at(a[1]);
    NTL::ZZ_p r = a[3] == "x" ? b.generate((size_t) u64(a[2])) : b.generate((size_t) u64(a[2]), (size_t) u64(a[3]));
    j.str("e", "AutoP").str("g", a[1]).u64("pos", u64(a[2])).num("bits", a[3] == "x" ? 0 : num(a[3])).nat("out", rep(r)).nats("drawn", drawn);
  }
  else if (o == "nextp") { // nextp G : no argument at all
    PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>& b = *ps.at(a[1]);
    NTL::ZZ_p r = b.generate();
    j.str("e", "NextP").str("g", a[1]).nat("out", rep(r)).nats("drawn", drawn);
  }
  else if (o == "skipp") { // skipp G N : N of them, not looked at
    PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>& b = *ps.at(a[1]);
    for (size_t i = 0; i < num(a[2]); i++) (void) b.generate();
    j.str("e", "SkipP").str("g", a[1]).num("n", num(a[2])).nats("drawn", drawn);
  }
  else if (o == "defaultp") { j.str("e", "DefaultP").str("g", a[1]).nat("out", rep(ps.at(a[1])->defaultSeed())); }
  else { fprintf(stderr, "unknown op %s\n", o.c_str()); _exit(98); }
  emit(j);
}
