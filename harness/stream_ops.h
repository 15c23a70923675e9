// Calls common to the stream cipher drivers.
#pragma once
#include "drv.h"
namespace drv {
template <class T, class F> void add_process(Ops &ops, Sessions<T> &S, F process) {
  ops["Process"] = [&S, process](const Line &l) {
    Buf in(data(l), 1);
    Out<Buf> out(in, 1);
    auto &s = S[l.i("s")];
    process(s(), out.p(), in.p(), in.n);
    Ev("Process").i("s", l.i("s")).b("in", in.orig).b("out", out.get()).i("frame", in.unchanged() && out.guards() && s.guards());
  };
  ops["ProcessLong"] = [&S, process](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Out<Big> out(in);
    auto &s = S[l.i("s")];
    process(s(), out.p(), in.p(), in.n);
    Ev("ProcessLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("sum", out.sum()).i("frame", in.unchanged(seed) && out.guards() && s.guards());
  };
  // a long packet of which only the length is recorded
  ops["Burn"] = [&S, process](const Line &l) {
    auto &s = S[l.i("s")];
    std::vector<uint8_t> in((size_t)l.i("n"), 0), out((size_t)l.i("n"));
    process(s(), out.data(), in.data(), in.size());
    Ev("Burn").i("s", l.i("s")).i("n", l.i("n")).i("frame", s.guards());
  };
}
template <class T, class F> void add_loadkey(Ops &ops, Sessions<T> &S, F load) {
  ops["LoadKey"] = [&S, load](const Line &l) {
    Buf key(l.b("key"), 4);
    auto &s = S[l.i("s")];
    load(s(), key.p(), key.n);
    Ev("LoadKey").i("s", l.i("s")).b("key", key.orig).i("frame", key.unchanged() && s.guards());
  };
}
template <class T, class F> void add_loadiv(Ops &ops, Sessions<T> &S, F load) {
  ops["LoadIV"] = [&S, load](const Line &l) {
    Buf iv(l.b("iv"), 4);
    auto &s = S[l.i("s")];
    load(s(), iv.p());
    Ev("LoadIV").i("s", l.i("s")).b("iv", iv.orig).i("frame", iv.unchanged() && s.guards());
  };
}
template <class T, class F> void add_init(Ops &ops, Sessions<T> &S, F load) {
  ops["Init"] = [&S, load](const Line &l) {
    Buf key(l.b("key"), 4), iv(l.b("iv"), 4);
    auto &s = S[l.i("s")];
    load(s(), key.p(), iv.p());
    Ev("Init").i("s", l.i("s")).b("key", key.orig).b("iv", iv.orig).i("frame", key.unchanged() && iv.unchanged() && s.guards());
  };
}
} // namespace drv
