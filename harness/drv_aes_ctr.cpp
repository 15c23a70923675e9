#include "drv.h"
#include "aes_ctr.h"
using namespace drv;
namespace fallback { Absent aes_encrypt(...) { return {}; } }
using namespace fallback;

// direct access to the block counter, when the state has the fields it is documented to have
template <class S> static auto counter(S *s, int) -> decltype((void)s->reg4, (uint8_t *)&s->reg4) { return sizeof(s->reg4) == 4 ? (uint8_t *)&s->reg4 : nullptr; }
template <class S> static uint8_t *counter(S *, long) { return nullptr; }

int main(int argc, char **argv) {
  Sessions<aes_state> S;
  Ops ops;
  ops["LoadKey"] = [&](const Line &l) {
    Buf key(l.b("key"), 4);
    auto &s = S[l.i("s")];
    aes_load_key(s(), key.p());
    Ev("LoadKey").i("s", l.i("s")).b("key", key.orig).i("frame", key.unchanged() && s.guards());
  };
  ops["LoadIV"] = [&](const Line &l) {
    Buf iv(l.b("iv"), 4);
    auto &s = S[l.i("s")];
    aes_load_iv(s(), iv.p());
    Ev("LoadIV").i("s", l.i("s")).b("iv", iv.orig).i("frame", iv.unchanged() && s.guards());
  };
  ops["Process"] = [&](const Line &l) {
    Buf in(data(l), 1);
    Out<Buf> out(in, 1);
    auto &s = S[l.i("s")];
    aes_ctr_process_packet(s(), out.p(), in.p(), (int)in.n);
    Ev("Process").i("s", l.i("s")).b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  ops["ProcessLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Out<Big> out(in);
    auto &s = S[l.i("s")];
    aes_ctr_process_packet(s(), out.p(), in.p(), (int)in.n);
    Ev("ProcessLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("sum", out.sum()).i("frame", in.unchanged(seed) && out.guards() && s.guards());
  };
  // process a long packet, record only its length in blocks (and that the frame was respected)
  ops["Burn"] = [&](const Line &l) {
    auto &s = S[l.i("s")];
    long blocks = l.i("blocks"), left = blocks;
    std::vector<uint8_t> in(1 << 16, 0), out(1 << 16);
    while (left > 0) {
      long n = left < 4096 ? left : 4096;
      aes_ctr_process_packet(s(), out.data(), in.data(), (int)(16 * n));
      left -= n;
    }
    Ev("Burn").i("s", l.i("s")).i("blocks", blocks).i("frame", s.guards());
  };
  // set the running counter (big-endian bytes); only if the state is laid out as expected
  ops["SetCounter"] = [&](const Line &l) {
    auto &s = S[l.i("s")];
    uint8_t *c = counter(s(), 0);
    if (c) {
      aes_state t;
      uint8_t z[16] = {0}, o[16];
      memcpy(&t, s(), sizeof t);
      aes_load_iv(&t, z);
      uint8_t *tc = counter(&t, 0);
      bool ok = tc[0] == 0 && tc[1] == 0 && tc[2] == 0 && tc[3] == 1;
      aes_ctr_process_packet(&t, o, z, 16);
      ok = ok && tc[0] == 0 && tc[1] == 0 && tc[2] == 0 && tc[3] == 2;
      tc[2] = 0; tc[3] = 255;                       // carries into the next byte?
      aes_ctr_process_packet(&t, o, z, 16);
      if (!ok) c = nullptr;
    }
    Bytes b = l.b("ctr");
    if (c) memcpy(c, b.data(), 4);
    Ev("SetCounter").i("s", l.i("s")).b("ctr", b).i("done", c != nullptr).i("frame", 1);
  };
  // one block cipher call on the current block, which must not disturb the session
  ops["Block"] = [&](const Line &l) {
    auto &s = S[l.i("s")];
    uint32_t ks[4];
    if (!offered<decltype(aes_encrypt(s(), ks))>()) return;
    aes_encrypt(s(), ks);
    Ev("Block").i("s", l.i("s")).b("out", Bytes((uint8_t *)ks, (uint8_t *)ks + 16)).i("frame", s.guards());
  };
  return run(argc, argv, ops);
}
