#include "stream_ops.h"
#include "chacha.h"
using namespace drv;
namespace fallback { Absent chacha_block(...) { return {}; } }
using namespace fallback;
namespace fallback { Absent test_q(...) { return {}; } }
using namespace fallback;
int main(int argc, char **argv) {
  Sessions<chacha_state> S;
  Ops ops;
  add_init(ops, S, [](chacha_state *c, uint8_t *k, uint8_t *n) { chacha_initialize(c, k, n); });
  add_process(ops, S, [](chacha_state *c, uint8_t *o, uint8_t *i, size_t n) { chacha_process_packet(c, o, i, n); });
  ops["Block"] = [&](const Line &l) {
    Bytes c = l.b("ctr");
    uint32_t ctr = (uint32_t)c[0] << 24 | c[1] << 16 | c[2] << 8 | c[3];
    Buf out(64, 4);
    auto &s = S[l.i("s")];
    if (!offered<decltype(chacha_block(s(), ctr, (uint32_t *)out.p()))>()) return;
    chacha_block(s(), ctr, (uint32_t *)out.p());
    Ev("Block").i("s", l.i("s")).b("ctr", c).b("out", out.get()).i("frame", out.guards() && s.guards());
  };
  ops["Quarter"] = [&](const Line &l) {
    Buf in(l.b("in"), 4), out(64, 4);
    Bytes w;                       // events carry words as big-endian bytes
    for (int i = 0; i < 16; i++) for (int j = 3; j >= 0; j--) w.push_back(in.p()[4 * i + j]);
    if (!offered<decltype(test_q((uint32_t *)in.p(), (uint32_t *)out.p()))>()) return;
    test_q((uint32_t *)in.p(), (uint32_t *)out.p());
    Ev("Quarter").b("in", w).w("out", (uint32_t *)out.p(), 16).i("frame", in.unchanged() && out.guards());
  };
  return run(argc, argv, ops);
}
