#include "drv.h"
#include "des.h"
using namespace drv;
int main(int argc, char **argv) {
  Sessions<des_state> S;
  Ops ops;
  auto load = [&](const char *name, void (*f)(des_state *, unsigned char *)) {
    ops[name] = [&S, name, f](const Line &l) {
      Buf key(l.b("key"), 4);
      auto &s = S[l.i("s")];
      f(s(), key.p());
      Ev(name).i("s", l.i("s")).b("key", key.orig).i("frame", key.unchanged() && s.guards());
    };
  };
  load("LoadEnc", des_key_schedule_encrypt);
  load("LoadDec", des_key_schedule_decrypt);
  ops["Process"] = [&](const Line &l) {
    Buf in(data(l), 4);
    Out<Buf> out(in, 4);
    auto &s = S[l.i("s")];
    if (l.has("block")) des_ecb_block(s(), (u32 *)out.p(), (u32 *)in.p());
    else des_process_packet_ecb(s(), (u32 *)out.p(), (u32 *)in.p(), in.n);
    Ev("Process").i("s", l.i("s")).b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  ops["ProcessLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Out<Big> out(in);
    auto &s = S[l.i("s")];
    des_process_packet_ecb(s(), (u32 *)out.p(), (u32 *)in.p(), in.n);
    Ev("ProcessLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("sum", out.sum()).i("frame", in.unchanged(seed) && out.guards() && s.guards());
  };
  ops["Ctr"] = [&](const Line &l) {
    Buf in(data(l), 4), nonce(l.b("nonce"), 4);
    Out<Buf> out(in, 4);
    auto &s = S[l.i("s")];
    des_process_packet_ctr(s(), (u32 *)out.p(), (u32 *)in.p(), (u32 *)nonce.p(), in.n);
    Ev("Ctr").i("s", l.i("s")).b("nonce", nonce.orig).b("in", in.orig).b("out", out.get())
        .i("frame", in.unchanged() && nonce.unchanged() && out.guards() && s.guards());
  };
  return run(argc, argv, ops);
}
