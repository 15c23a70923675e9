#include "drv.h"
#include "md5.h"
using namespace drv;
// sets the number of bits processed so far, where the context keeps it as count[2]
template <class T> auto skip(T *c, uint32_t lo, uint32_t hi, int) -> decltype((void)c->count[1], true) { c->count[0] = lo; c->count[1] = hi; return true; }
template <class T> bool skip(T *, uint32_t, uint32_t, long) { return false; }
int main(int argc, char **argv) {
  Sessions<MD5_CTX> S;
  Ops ops;
  ops["Start"] = [&](const Line &l) {
    auto &s = S[l.i("s")];
    MD5Init(s());
    Ev("Start").i("s", l.i("s")).i("frame", s.guards());
  };
  ops["Update"] = [&](const Line &l) {
    Buf in(data(l), 1);
    auto &s = S[l.i("s")];
    MD5Update(s(), in.p(), (unsigned)in.n);
    Ev("Update").i("s", l.i("s")).b("in", in.orig).i("frame", in.unchanged() && s.guards());
  };
  ops["UpdateLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    auto &s = S[l.i("s")];
    MD5Update(s(), in.p(), (unsigned)in.n);
    Ev("UpdateLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).i("frame", in.unchanged(seed) && s.guards());
  };
  ops["Skip"] = [&](const Line &l) {
    Bytes lo = l.b("lo"), hi = l.b("hi");
    auto w = [](const Bytes &b) { return (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; };
    bool done = skip(S[l.i("s")](), w(lo), w(hi), 0);
    Ev("Skip").i("s", l.i("s")).b("lo", lo).b("hi", hi).i("done", done);
  };
  ops["Final"] = [&](const Line &l) {
    Buf out(16, 1);
    auto &s = S[l.i("s")];
    MD5Final(out.p(), s());
    Ev("Final").i("s", l.i("s")).b("out", out.get()).b("left", s.buf.get()).i("frame", out.guards() && s.guards());
  };
  ops["Whole"] = [&](const Line &l) {
    Buf in(data(l), 1), out(16, 1);
    auto &s = S[l.i("s")];
    MD5_process_packet(s(), out.p(), in.p(), (unsigned)in.n);
    Ev("Whole").i("s", l.i("s")).b("in", in.orig).b("out", out.get()).b("left", s.buf.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  return run(argc, argv, ops);
}
