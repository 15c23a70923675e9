#include "drv.h"
#include "encoder.h"
using namespace drv;
int main(int argc, char **argv) {
  Ops ops;
  ops["Encode"] = [&](const Line &l) {
    Buf in(data(l), 1), out(2 * in.n + 1, 1);
    hex_encode((char *)out.p(), in.p(), (int)in.n);
    Ev("Encode").b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards());
  };
  ops["Decode"] = [&](const Line &l) {
    std::string t = l.s("text");
    Buf in(Bytes(t.begin(), t.end()), 1), out(t.size() / 2, 1);
    hex_decode(out.p(), (const char *)in.p(), (int)in.n);
    Ev("Decode").b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards());
  };
  ops["EncodeLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed), out(2 * in.n + 1);
    hex_encode((char *)out.p(), in.p(), (int)in.n);
    Ev("EncodeLong").i("seed", (int32_t)seed).z("z", in.n).b("sum", out.sum()).i("frame", in.unchanged(seed) && out.guards());
  };
  // decodes the text of a pattern of n bytes
  ops["DecodeLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed"), x = seed;
    Big text(2 * (size_t)l.i("n")), out(text.n / 2);
    for (size_t i = 0; i < out.n; i++) {
      x = x * 1664525u + 1013904223u;
      text.p()[2 * i] = (uint8_t)"0123456789ABCDEF"[x >> 28];
      text.p()[2 * i + 1] = (uint8_t)"0123456789ABCDEF"[x >> 24 & 15];
    }
    uint32_t before = text.checksum();
    hex_decode(out.p(), (const char *)text.p(), (int)text.n);
    Ev("DecodeLong").i("seed", (int32_t)seed).z("z", out.n).b("sum", out.sum()).i("frame", text.checksum() == before && text.guards() && out.guards());
  };
  return run(argc, argv, ops);
}
