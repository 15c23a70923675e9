#include "stream_ops.h"
#include "hmac.h"
using namespace drv;
int main(int argc, char **argv) {
  Sessions<hmac_state> S;
  std::map<long, Bytes> tags;       // last tag of a session
  Ops ops;
  ops["LoadKey"] = [&](const Line &l) {
    Buf key(data(l, "key"), 1);
    auto &s = S[l.i("s")];
    hmac_load_key(s(), key.p(), (int)key.n);
    Ev("LoadKey").i("s", l.i("s")).b("key", key.orig).i("frame", key.unchanged() && s.guards());
  };
  ops["Tag"] = [&](const Line &l) {
    Buf in(data(l), 1), tag((size_t)l.i("len", 32), 1);
    auto &s = S[l.i("s")];
    hmac_tag_generation(s(), tag.p(), in.p(), in.n, (int)tag.n);
    tags[l.i("s")] = tag.get();
    Ev("Tag").i("s", l.i("s")).b("in", in.orig).i("len", (long)tag.n).b("tag", tag.get()).i("frame", in.unchanged() && tag.guards() && s.guards());
  };
  // presents the last tag of session "of" (default s), changed as asked
  ops["Validate"] = [&](const Line &l) {
    Bytes t = l.has("tag") ? l.b("tag") : tags[l.i("of", l.i("s"))];
    if (l.has("flip") && !t.empty()) t[(size_t)(l.i("flip") / 8) % t.size()] ^= (uint8_t)(1 << (l.i("flip") % 8));
    if (l.has("flip2") && !t.empty()) t[(size_t)(l.i("flip2") / 8) % t.size()] ^= (uint8_t)(1 << (l.i("flip2") % 8));
    if (l.has("cut")) t.resize(t.size() - std::min<size_t>(t.size() - 1, (size_t)l.i("cut")));
    Buf in(data(l), 1), tag(t, 1);
    auto &s = S[l.i("s")];
    int res = hmac_tag_validation(s(), tag.p(), in.p(), in.n, (int)tag.n);
    Ev("Validate").i("s", l.i("s")).b("in", in.orig).b("tag", t).i("res", res != 0).i("frame", in.unchanged() && tag.unchanged() && s.guards());
  };
  ops["TagLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Buf tag((size_t)l.i("len", 32), 1);
    auto &s = S[l.i("s")];
    hmac_tag_generation(s(), tag.p(), in.p(), in.n, (int)tag.n);
    tags[l.i("s")] = tag.get();
    Ev("TagLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("tag", tag.get()).i("frame", in.unchanged(seed) && tag.guards() && s.guards());
  };
  ops["ValidateLong"] = [&](const Line &l) {
    uint32_t seed = (uint32_t)l.i("seed");
    Big in((size_t)l.i("n"), seed);
    Bytes t = tags[l.i("s")];
    if (l.has("flip") && !t.empty()) t[(size_t)(l.i("flip") / 8) % t.size()] ^= (uint8_t)(1 << (l.i("flip") % 8));
    Buf tag(t, 1);
    auto &s = S[l.i("s")];
    int res = hmac_tag_validation(s(), tag.p(), in.p(), in.n, (int)tag.n);
    Ev("ValidateLong").i("s", l.i("s")).i("seed", (int32_t)seed).z("z", in.n).b("tag", t).i("res", res != 0).i("frame", in.unchanged(seed) && tag.unchanged() && s.guards());
  };
  return run(argc, argv, ops);
}
