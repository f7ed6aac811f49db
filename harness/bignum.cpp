// Driver of the big-number helpers
#define HARNESS_MAIN
#include "harness.h"
#include "libeopsi/ntlmiss.h"

static std::map<std::string, std::vector<NTL::ZZ_p>> vs;    // sources
static std::map<std::string, NTL::vec_ZZ_p> ds;             // destinations
void begin() {}
void finish() {}

void op(const Args& a) {
  const std::string& o = a[0];
  J j;
  if (o == "ctx") { NTL::ZZ_p::init(zz(a[1])); j.str("e", "Ctx").nat("p", zz(a[1])); }
  else if (o == "log2") { j.str("e", "Log2").nat("z", zz(a[1])).num("out", NTL::log2(zz(a[1]))); }
  else if (o == "blocks") { j.str("e", "Blocks").u64("n", u64(a[1])).u64("k", u64(a[2])).u64("out", NTL::blocks(u64(a[1]), u64(a[2]))); }
  else if (o == "bytesn") { j.str("e", "BytesN").u64("n", u64(a[1])).u64("out", NTL::bytes((unsigned long) u64(a[1]))); }
  else if (o == "bytesz") { j.str("e", "BytesZ").nat("z", zz(a[1])).num("out", NTL::bytes(zz(a[1]))); }
  else if (o == "bytesp") { NTL::ZZ_p e = NTL::conv<NTL::ZZ_p>(zz(a[1])); j.str("e", "BytesZ").nat("z", rep(e)).num("out", NTL::bytes(e)); }
  else if (o == "pad") { NTL::ZZ z = zz(a[1]); NTL::ZZ r = NTL::zeroPad(z, (size_t) u64(a[2])); j.str("e", "Pad").nat("z", zz(a[1])).num("n", num(a[2])).nat("out", r).boo("intact", z == zz(a[1])).nat("back", r >> num(a[2])); }
  else if (o == "padto") { NTL::ZZ z = zz(a[1]); NTL::ZZ r = NTL::zeroPadTo(z, (size_t) u64(a[2])); j.str("e", "PadTo").nat("z", zz(a[1])).num("n", num(a[2])).nat("out", r).boo("intact", z == zz(a[1])); }
  else if (o == "twos") { j.str("e", "Twos").nat("z", zz(a[1])).num("out", NTL::countLeadingZeros(zz(a[1]))); }
  else if (o == "print") {   // print N...
    std::vector<NTL::ZZ> v;
    for (size_t i = 1; i < a.size(); i++) v.push_back(zz(a[i]));
    std::string s;
    { Capture c; NTL::printZZArray(v.data(), v.size()); s = c.get(); }
    j.str("e", "Print").nats("v", v).text("out", s);
  }
  else if (o == "src") {     // src S N...
    std::vector<NTL::ZZ_p> v;
    for (size_t i = 2; i < a.size(); i++) v.push_back(NTL::conv<NTL::ZZ_p>(zz(a[i])));
    vs[a[1]] = v;
    j.str("e", "Src").str("s", a[1]).nats("v", [&] { std::vector<NTL::ZZ> r; for (auto& x : v) r.push_back(rep(x)); return r; }());
  }
  else if (o == "poke") {    // poke S I N : change of a source, in place
    vs.at(a[1])[num(a[2])] = NTL::conv<NTL::ZZ_p>(zz(a[3]));
    j.str("e", "Poke").str("s", a[1]).num("i", num(a[2])).nat("n", rep(vs.at(a[1])[num(a[2])]));
  }
  else if (o == "conv") {    // conv HOW S D : HOW is vec, vecnew, arr, arrnew
    auto& v = vs.at(a[2]);
    size_t dim = a.size() > 4 ? (size_t) u64(a[4]) : v.size();
    NTL::ZZ_p none;
    if (a[1] == "vec") { NTL::vector2VecZZp(ds[a[3]], v); dim = v.size(); }
    else if (a[1] == "vecnew") { ds[a[3]] = NTL::vector2VecZZp(v); dim = v.size(); }
    else if (a[1] == "arr") NTL::array2VecZZp(ds[a[3]], v.empty() ? &none : v.data(), dim);
    else ds[a[3]] = NTL::array2VecZZp(v.empty() ? &none : v.data(), dim);
    j.str("e", "Conv").str("s", a[2]).str("d", a[3]).num("dim", dim);
  }
  else if (o == "convnull") { // convnull HOW D N
    if (a[1] == "arr") NTL::array2VecZZp(ds[a[2]], nullptr, (size_t) u64(a[3]));
    else ds[a[2]] = NTL::array2VecZZp(nullptr, (size_t) u64(a[3]));
    j.str("e", "ConvNull").boo("keep", a[1] == "arr").str("d", a[2]);
  }
  else if (o == "read") { j.str("e", "Read").str("d", a[1]).nats("out", reps(ds.at(a[1]))); }
  else if (o == "reads") { std::vector<NTL::ZZ> r; for (auto& x : vs.at(a[1])) r.push_back(rep(x)); j.str("e", "ReadS").str("s", a[1]).nats("out", r); }
  else { _exit(98); }
  emit(j);
}
