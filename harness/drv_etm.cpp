// Encrypt-then-MAC as the example program composes it: CFB packets are ciphertext || tag, HC-128 packets are
// IV || ciphertext || tag, the tag covers all before it, and a receiver validates before it decrypts.
#include "drv.h"
#include "hmac.h"
#include "aes_cfb.h"
#include "hc128.h"
using namespace drv;
struct Endpoint { State<hmac_state> mac; State<aes_state> cfb; Bytes enc; bool hc; long tagsize; };
struct Packet { Bytes msg; size_t head, tail; };
int main(int argc, char **argv) {
  std::map<long, std::unique_ptr<Endpoint>> eps;
  std::map<long, Packet> P;
  Ops ops;
  auto cut = [](const Packet &p, int part) {
    size_t e = p.msg.size() - std::min(p.msg.size(), p.tail), h = std::min(p.head, e);
    return part == 0 ? Bytes(p.msg.begin(), p.msg.begin() + h) : part == 1 ? Bytes(p.msg.begin() + h, p.msg.begin() + e) : Bytes(p.msg.begin() + e, p.msg.end());
  };
  ops["Keys"] = [&](const Line &l) {
    auto &e = eps[l.i("s")];
    if (!e) e.reset(new Endpoint());
    Buf mac(l.b("mac"), 1), enc(l.b("enc"), 4), iv(l.b("iv"), 4);
    e->enc = enc.orig;
    e->hc = l.s("mode") == "hc";
    e->tagsize = l.i("tag", 16);
    hmac_load_key(e->mac(), mac.p(), (int)mac.n);
    if (!e->hc) aes_cfb_initialize(e->cfb(), enc.p(), iv.p());
    Ev("Keys").i("s", l.i("s")).str("mode", l.s("mode")).b("mac", mac.orig).b("enc", enc.orig).b("iv", iv.orig);
  };
  ops["Forget"] = [&](const Line &) { P.clear(); Ev("Forget"); };
  ops["Send"] = [&](const Line &l) {
    Endpoint &e = *eps[l.i("s")];
    Buf in(data(l), 1), iv(e.hc ? l.b("iv") : Bytes(), 4), enc(e.enc, 4), msg(iv.n + in.n + e.tagsize, 1);
    if (iv.n) memcpy(msg.p(), iv.p(), iv.n);
    if (e.hc) {
      State<hc128_state> hc;
      hc128_initialize(hc(), enc.p(), iv.p());
      hc128_process_packet(hc(), msg.p() + iv.n, in.p(), in.n);
    } else aes_cfb_process_packet(e.cfb(), msg.p(), in.p(), (int)in.n, ENCRYPT);
    hmac_tag_generation(e.mac(), msg.p() + iv.n + in.n, msg.p(), iv.n + in.n, (int)e.tagsize);
    Packet p{msg.get(), iv.n, (size_t)e.tagsize};
    P[l.i("p")] = p;
    Ev("Send").i("s", l.i("s")).b("iv", iv.orig).b("in", in.orig).b("ct", cut(p, 1)).b("tag", cut(p, 2));
  };
  // changes to packet p: flip=a,b (bits of the whole packet), cut/add at the end of the ciphertext, parts of another packet
  ops["Receive"] = [&](const Line &l) {
    Endpoint &e = *eps[l.i("s")];
    Packet p = P[l.i("p")];
    Bytes iv = cut(p, 0), ct = cut(p, 1), tag = cut(p, 2);
    if (l.has("tagof")) tag = cut(P[l.i("tagof")], 2);
    if (l.has("ivof")) iv = cut(P[l.i("ivof")], 0);
    if (l.has("settag")) tag = l.b("settag");
    if (l.has("cutct")) ct.resize(ct.size() - std::min<size_t>(ct.size(), l.i("cutct")));
    if (l.has("addct")) ct.resize(ct.size() + l.i("addct"), (uint8_t)l.i("with"));
    if (l.has("cuttag")) tag.resize(tag.size() - std::min<size_t>(tag.size() - 1, l.i("cuttag")));
    if (l.has("shift") && !ct.empty()) {      // the boundary between IV and ciphertext, or ciphertext and tag, is moved
      if (l.i("shift") == 1) { tag.insert(tag.begin(), ct.back()); tag.pop_back(); ct.pop_back(); }
      else { ct.push_back(tag[0]); tag.erase(tag.begin()); tag.push_back(0); }
    }
    auto flip = [](Bytes &b, long n) { if (!b.empty()) b[(size_t)(n / 8) % b.size()] ^= (uint8_t)(1 << (n % 8)); };
    for (auto &x : {std::make_pair("ftag", &tag), {"ftag2", &tag}, {"fct", &ct}, {"fiv", &iv}}) if (l.has(x.first)) flip(*x.second, l.i(x.first));
    Bytes m = iv;
    m.insert(m.end(), ct.begin(), ct.end());
    Buf body(m, 1), t(tag, 1), out(ct.size(), 1);
    int ok = hmac_tag_validation(e.mac(), t.p(), body.p(), body.n, (int)t.n);
    if (ok) {
      Buf enc(e.enc, 4);
      if (e.hc) {
        State<hc128_state> hc;
        Buf v(iv, 4);
        hc128_initialize(hc(), enc.p(), v.p());
        hc128_process_packet(hc(), out.p(), body.p() + iv.size(), out.n);
      } else aes_cfb_process_packet(e.cfb(), out.p(), body.p(), (int)out.n, DECRYPT);
    }
    Ev("Receive").i("s", l.i("s")).b("iv", iv).b("ct", ct).b("tag", tag).i("res", ok != 0).b("out", ok ? out.get() : Bytes());
  };
  return run(argc, argv, ops);
}
