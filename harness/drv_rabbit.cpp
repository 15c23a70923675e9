#include "stream_ops.h"
#include "rabbit.h"
using namespace drv;
namespace fallback { Absent rabbit_extract_keystream(...) { return {}; } }
using namespace fallback;
int main(int argc, char **argv) {
  Sessions<rabbit_state> S;
  Ops ops;
  add_loadkey(ops, S, [](rabbit_state *c, uint8_t *k, size_t) { rabbit_load_key(c, k); });
  add_loadiv(ops, S, [](rabbit_state *c, uint8_t *v) { rabbit_load_iv(c, v); });
  add_process(ops, S, [](rabbit_state *c, uint8_t *o, uint8_t *i, size_t n) { rabbit_process_packet(c, o, i, n); });
  ops["Keystream"] = [&](const Line &l) {
    Buf out(16, 4);
    auto &s = S[l.i("s")];
    if (!offered<decltype(rabbit_extract_keystream(s(), (uint32_t *)out.p()))>()) return;
    rabbit_extract_keystream(s(), (uint32_t *)out.p());
    Ev("Keystream").i("s", l.i("s")).b("out", out.get()).i("frame", out.guards() && s.guards());
  };
  return run(argc, argv, ops);
}
