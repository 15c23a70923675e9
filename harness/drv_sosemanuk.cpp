#include "stream_ops.h"
#include "sosemanuk.h"
using namespace drv;
int main(int argc, char **argv) {
  Sessions<sosemanuk_state> S;
  Ops ops;
  add_loadkey(ops, S, [](sosemanuk_state *c, uint8_t *k, size_t n) { sosemanuk_load_key(c, k, (int)n); });
  add_loadiv(ops, S, [](sosemanuk_state *c, uint8_t *v) { sosemanuk_load_iv(c, v); });
  add_process(ops, S, [](sosemanuk_state *c, uint8_t *o, uint8_t *i, size_t n) { sosemanuk_process_packet(c, o, i, n); });
  return run(argc, argv, ops);
}
