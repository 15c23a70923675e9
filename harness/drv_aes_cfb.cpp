#include "drv.h"
#include "aes_cfb.h"
using namespace drv;

int main(int argc, char **argv) {
  Sessions<aes_state> S;
  std::map<long, Bytes> last;      // what a session produced last, to feed into another one
  Ops ops;
  ops["Initialize"] = [&](const Line &l) {
    Buf key(l.b("key"), 4), iv(l.b("iv"), 4);
    auto &s = S[l.i("s")];
    aes_cfb_initialize(s(), key.p(), iv.p());
    Ev("Initialize").i("s", l.i("s")).b("key", key.orig).b("iv", iv.orig).i("frame", key.unchanged() && iv.unchanged() && s.guards());
  };
  auto process = [&](const Line &l, const char *name, int mode) {
    Bytes d = l.has("from") ? last[l.i("from")] : data(l);
    if (l.has("flip") && !d.empty()) d[(size_t)(l.i("flip") / 8) % d.size()] ^= (uint8_t)(1 << (l.i("flip") % 8));
    Buf in(d, 1);
    Out<Buf> out(in, 1);
    auto &s = S[l.i("s")];
    aes_cfb_process_packet(s(), out.p(), in.p(), (int)in.n, mode);
    last[l.i("s")] = out.get();
    Ev e(name);
    e.i("s", l.i("s")).i("from", l.i("from", l.i("src"))).b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  ops["Encrypt"] = [&](const Line &l) { process(l, "Encrypt", 0); };
  ops["Decrypt"] = [&](const Line &l) { process(l, "Decrypt", 1); };
  auto longer = [&](const Line &l, const char *name, int mode) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Out<Big> out(in);
    auto &s = S[l.i("s")];
    aes_cfb_process_packet(s(), out.p(), in.p(), (int)in.n, mode);
    Ev e(name);
    e.i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("sum", out.sum()).i("frame", in.unchanged(seed) && out.guards() && s.guards());
  };
  ops["EncryptLong"] = [&](const Line &l) { longer(l, "EncryptLong", 0); };
  ops["DecryptLong"] = [&](const Line &l) { longer(l, "DecryptLong", 1); };
  // a packet that is lost on the way leaves no event at the receiver
  return run(argc, argv, ops);
}
