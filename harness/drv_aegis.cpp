#include "drv.h"
#include "aegis_128.h"
using namespace drv;

struct Packet { Bytes iv, ad, ct, tag, pt; };

// change one kind of thing in a byte string, as the schedule asks
static void flip(Bytes &b, const Line &l, const char *k) {
  if (!l.has(k)) return;
  std::string s = l.s(k);       // list of bit positions, comma separated
  for (char *save = nullptr, *t = strtok_r(&s[0], ",", &save); t; t = strtok_r(nullptr, ",", &save)) {
    long bit = atol(t);
    if (!b.empty()) b[(size_t)(bit / 8) % b.size()] ^= (uint8_t)(1 << (bit % 8));
  }
}

int main(int argc, char **argv) {
  Sessions<aegis_state> S;
  std::map<long, Packet> P;
  Ops ops;
  ops["LoadKey"] = [&](const Line &l) {
    Buf key(l.b("key"), 4);
    auto &s = S[l.i("s")];
    aegis_load_key(s(), key.p());
    Ev("LoadKey").i("s", l.i("s")).b("key", key.orig).i("frame", key.unchanged() && s.guards());
  };
  ops["Encrypt"] = [&](const Line &l) {
    Buf iv(l.b("iv"), 4), ad(data(l, "ad"), 1), pt(data(l), 1), tag(16, 4);
    Out<Buf> ct(pt, 1);
    auto &s = S[l.i("s")];
    aegis_encrypt_packet(s(), ct.p(), tag.p(), pt.p(), ad.p(), iv.p(), ad.n, pt.n);
    P[l.i("p")] = Packet{iv.orig, ad.orig, ct.get(), tag.get(), pt.orig};
    Ev("Encrypt").i("s", l.i("s")).b("iv", iv.orig).b("ad", ad.orig).b("in", pt.orig).b("out", ct.get()).b("tag", tag.get())
        .i("frame", iv.unchanged() && ad.unchanged() && pt.unchanged() && ct.guards() && tag.guards() && s.guards());
  };
  ops["Decrypt"] = [&](const Line &l) {
    Packet k = P[l.i("p")];
    if (l.has("tagof")) k.tag = P[l.i("tagof")].tag;
    if (l.has("ivof")) k.iv = P[l.i("ivof")].iv;
    if (l.has("adof")) k.ad = P[l.i("adof")].ad;
    if (l.has("settag")) k.tag = l.b("settag");
    flip(k.ct, l, "fct"); flip(k.ad, l, "fad"); flip(k.iv, l, "fiv"); flip(k.tag, l, "ftag");
    if (l.has("swaptag")) { long a = l.i("swaptag") % 16, b = l.i("swaptag") / 16 % 16; std::swap(k.tag[a], k.tag[b]); }
    if (l.has("cutct")) k.ct.resize(k.ct.size() - std::min<size_t>(k.ct.size(), l.i("cutct")));
    if (l.has("addct")) k.ct.resize(k.ct.size() + l.i("addct"), (uint8_t)l.i("with"));
    if (l.has("cutad")) k.ad.resize(k.ad.size() - std::min<size_t>(k.ad.size(), l.i("cutad")));
    if (l.has("addad")) k.ad.resize(k.ad.size() + l.i("addad"), (uint8_t)l.i("with"));
    Buf iv(k.iv, 4), ad(k.ad, 1), ct(k.ct, 1), tag(k.tag, 4);
    Out<Buf> pt(ct, 1);
    Bytes prior = pt.get();
    auto &s = S[l.i("s")];
    int res = aegis_decrypt_packet(s(), pt.p(), ct.p(), ad.p(), iv.p(), tag.p(), ad.n, ct.n);
    // a rejected packet's tag may be erased; everything else is input
    bool f = iv.unchanged() && ad.unchanged() && ct.unchanged() && pt.guards() && s.guards() && (res ? tag.unchanged() : tag.guards());
    Ev("Decrypt").i("s", l.i("s")).b("iv", k.iv).b("ad", k.ad).b("in", k.ct).b("tag", k.tag).b("out", pt.get()).b("prior", prior).i("res", res != 0).i("frame", f);
  };
  // A long packet is sealed and, for every entry of "open", presented to the same or another session:
  // "ok" as it is, "ct<byte>", "ad<byte>", "tag<byte>", "iv<byte>" with one bit of that byte changed.
  ops["EncryptLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed"), adseed = (uint32_t)l.i("adseed");
    Buf iv(l.b("iv"), 4), tag(16, 4);
    Big ad((size_t)l.i("adn"), adseed), ct((size_t)l.i("n"));
    auto &s = S[l.i("s")];
    Bytes t;
    {
      Big pt(ct.n, seed);
      aegis_encrypt_packet(s(), ct.p(), tag.p(), pt.p(), ad.p(), iv.p(), ad.n, pt.n);
      t = tag.get();
      Ev("EncryptLong").i("s", l.i("s")).b("iv", iv.orig).i("adseed", (int32_t)adseed).z("adz", ad.n).i("seed", (int32_t)seed).z("z", pt.n)
          .b("sum", ct.sum()).b("tag", t)
          .i("frame", iv.unchanged() && ad.unchanged(adseed) && pt.unchanged(seed) && ct.guards() && tag.guards() && s.guards());
    }
    std::string o = l.s("open");
    for (char *save = nullptr, *q = strtok_r(&o[0], ",", &save); q; q = strtok_r(nullptr, ",", &save)) {
      std::string w(q);
      size_t k = w.find_first_of("0123456789");
      long at = k == std::string::npos ? 0 : atol(w.c_str() + k);
      std::string kind = w.substr(0, k);
      Buf tag2(t, 4), iv2(iv.orig, 4);
      Big pt(ct.n);
      uint8_t *c = kind == "ct" ? ct.p() : kind == "ad" ? ad.p() : kind == "tag" ? tag2.p() : kind == "iv" ? iv2.p() : nullptr;
      size_t m = kind == "ct" ? ct.n : kind == "ad" ? ad.n : 16;
      if (c && m) c[(size_t)at % m] ^= (uint8_t)(1 << (at % 8)); else kind = "ok";
      tag2.orig = tag2.get(); iv2.orig = iv2.get();
      uint32_t before = ct.checksum(), abefore = ad.checksum();
      auto &r = S[l.i("r", l.i("s"))];
      int res = aegis_decrypt_packet(r(), pt.p(), ct.p(), ad.p(), iv2.p(), tag2.p(), ad.n, ct.n);
      bool f = iv2.unchanged() && ct.checksum() == before && ct.guards() && ad.checksum() == abefore && ad.guards() && pt.guards() && r.guards() && tag2.guards() && (!res || tag2.unchanged());
      if (c && m && kind != "ok" && kind != "tag" && kind != "iv") c[(size_t)at % m] ^= (uint8_t)(1 << (at % 8));
      size_t nonzero = 0;
      for (size_t i = 0; i < pt.n; i++) nonzero += pt.p()[i] != 0;
      Ev("OpenLong").i("s", l.i("r", l.i("s"))).i("seed", (int32_t)seed).z("z", pt.n).str("kind", kind).i("at", at).i("res", res != 0).b("sum", pt.sum())
          .i("blank", nonzero == 0).i("frame", f);
    }
  };
  return run(argc, argv, ops);
}
