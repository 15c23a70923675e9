#include "stream_ops.h"
#include "hc128.h"
using namespace drv;
int main(int argc, char **argv) {
  Sessions<hc128_state> S;
  Ops ops;
  add_init(ops, S, [](hc128_state *c, uint8_t *k, uint8_t *v) { hc128_initialize(c, k, v); });
  add_process(ops, S, [](hc128_state *c, uint8_t *o, uint8_t *i, size_t n) { hc128_process_packet(c, o, i, n); });
  return run(argc, argv, ops);
}
