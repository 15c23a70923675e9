#include "stream_ops.h"
#include "serpent.h"
using namespace drv;
namespace fallback { Absent serpent1(...) { return {}; } }
using namespace fallback;
int main(int argc, char **argv) {
  Sessions<serpent_state> S;
  Ops ops;
  add_loadkey(ops, S, [](serpent_state *c, uint8_t *k, size_t n) { serpent_key_schedule(c, k, (int)n); });
  ops["Process"] = [&](const Line &l) {
    Buf in(l.b("in"), 4), out(48, 4);
    auto &s = S[l.i("s")];
    serpent_process_packet(s(), (uint32_t *)out.p(), (uint32_t *)in.p(), 16);
    Ev("Process").i("s", l.i("s")).b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  ops["Layer"] = [&](const Line &l) {
    Bytes in = l.b("in");
    Buf x(in, 4);
    uint32_t *w = (uint32_t *)x.p();
    if (!offered<decltype(serpent1(w, w, w, w))>()) return;
    serpent1(w, w + 1, w + 2, w + 3);
    Ev("Layer").b("in", in).b("out", x.get()).i("frame", x.guards());
  };
  return run(argc, argv, ops);
}
