#include "drv.h"
#include "sha-256.h"
using namespace drv;
int main(int argc, char **argv) {
  Ops ops;
  ops["Hash"] = [&](const Line &l) {
    Buf in(data(l), 1), out(32, 4);
    sha256_process_message(out.p(), in.p(), in.n);
    Ev("Hash").b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards());
  };
  ops["HashLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Buf out(32, 4);
    sha256_process_message(out.p(), in.p(), in.n);
    Ev("HashLong").i("seed", (int32_t)seed).z("z", in.n).b("out", out.get()).i("frame", in.unchanged(seed) && out.guards());
  };
  return run(argc, argv, ops);
}
