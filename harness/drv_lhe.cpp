// built with -DMU for the multi-user copy
#include "gmp_ops.h"
#ifdef MU
#include "mu_labeled_he.h"
#define he_keygen mu_he_setup
#define he_encrypt mu_he_encrypt
#define he_decrypt mu_he_decrypt
#define he_eval_add mu_he_eval_add
#define he_eval_sub mu_he_eval_sub
#define he_eval_mult mu_he_eval_mult
#define he_eval_mult_3 mu_he_eval_mult_3
#define he_eval_cmult mu_he_eval_cmult
#else
#include "labeled_he.h"
#endif
#include "joye_libert.h"
using namespace drv;
struct Key { Z N, y, p; uint32_t k = 0; };
struct Ct {
  long key = 0;
  bool lab = false;
  he_ct ct;       // labelled form
  Z c, b;         // other forms; b: the mask the caller tracks
};
int main(int argc, char **argv) {
  std::map<long, Key> keys;
  std::map<long, std::unique_ptr<Ct>> cts;
  Sessions<hc128_state> masks;
  Rng rng;
  Z two;
  mpz_set_ui(two.v, 2);
  auto at = [&](const Line &l, const char *k) -> Ct & { auto &p = cts[l.i(k)]; if (!p) p.reset(new Ct()); return *p; };
  auto reduce = [&](Z &x, Key &K) { Z m; mpz_pow_ui(m.v, two.v, K.k); mpz_mod(x.v, x.v, m.v); };
  Ops ops;
  ops["Seed"] = [&](const Line &l) { gmp_randseed_ui(rng.s, (unsigned long)l.i("seed")); };
  ops["KeyGen"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    K.k = (uint32_t)l.i("k");
    he_keygen(K.N.v, K.y.v, K.p.v, K.k, (uint32_t)l.i("size"));
    Ev("KeyGen").i("id", l.i("id")).i("k", K.k).i("size", l.i("size")).b("n", bytes_of(K.N)).b("y", bytes_of(K.y)).b("p", bytes_of(K.p));
  };
#ifdef MU
  ops["UserKey"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    Z upk, usk;
    mu_he_keygen(upk.v, usk.v, rng.s, K.N.v, K.y.v, K.k);
    Ev("UserKey").i("id", l.i("id")).b("c", bytes_of(upk)).b("x", bytes_of(usk));
  };
#else
  ops["UserKey"] = [&](const Line &) {};
#endif
  ops["MaskInit"] = [&](const Line &l) {
    Buf key(l.b("key"), 4), iv(l.b("iv"), 4);
    hc128_initialize(masks[l.i("h")](), key.p(), iv.p());
    Ev("MaskInit").i("h", l.i("h")).b("key", key.orig).b("iv", iv.orig);
  };
  ops["Encrypt"] = [&](const Line &l) {
    Key &K = keys[l.i("id")], before = K;
    Ct &s = at(l, "s");
    s.key = l.i("id"); s.lab = true;
    Z m(l.s("m")), label(l.s("label")), m0 = m, label0 = label;
    dirty_stack();
    he_encrypt(&s.ct, rng.s, masks[l.i("h")](), s.b.v, m.v, K.y.v, K.N.v, label.v, K.k);
    Ev("Encrypt").i("s", l.i("s")).i("id", l.i("id")).i("h", l.i("h")).b("m", bytes_of(m0)).b("label", bytes_of(label0))
      .b("a", bytes_of(s.ct.a)).b("c", bytes_of(s.ct.beta)).b("b", bytes_of(s.b))
      .i("frame", m == m0 && label == label0 && K.N == before.N && K.y == before.y && masks[l.i("h")].guards());
  };
  ops["EncMask"] = [&](const Line &l) {
    Ct &a = at(l, "s1"), &b = at(l, "s2");
    Key &K = keys[a.key];
    Z x;
    mpz_mul(x.v, a.b.v, b.b.v);
    reduce(x, K);
    Ct &s = at(l, "s");
    s.key = a.key; s.lab = false; s.b = x;
    if (l.i("alias")) { joye_libert_encrypt(x.v, rng.s, x.v, K.y.v, K.N.v, K.k); s.c = x; }
    else joye_libert_encrypt(s.c.v, rng.s, x.v, K.y.v, K.N.v, K.k);
    Ev("EncMask").i("s", l.i("s")).i("s1", l.i("s1")).i("s2", l.i("s2")).b("c", bytes_of(s.c));
  };
  auto lab2 = [&](const Line &l, const char *name, bool sub) {
    Ct &x = at(l, "s1"), &y = at(l, "s2"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z b;
    if (sub) mpz_sub(b.v, x.b.v, y.b.v); else mpz_add(b.v, x.b.v, y.b.v);
    reduce(b, K);
    Z xa, xc, ya, yc;
    mpz_set(xa.v, x.ct.a); mpz_set(xc.v, x.ct.beta); mpz_set(ya.v, y.ct.a); mpz_set(yc.v, y.ct.beta);
    if (sub) he_eval_sub(&s.ct, &x.ct, &y.ct, K.N.v, K.k); else he_eval_add(&s.ct, &x.ct, &y.ct, K.N.v, K.k);
    bool f = (&s == &x || (!mpz_cmp(xa.v, x.ct.a) && !mpz_cmp(xc.v, x.ct.beta))) && (&s == &y || (!mpz_cmp(ya.v, y.ct.a) && !mpz_cmp(yc.v, y.ct.beta)));
    s.key = x.key; s.lab = true; s.b = b;
    Ev(name).i("s", l.i("s")).i("s1", l.i("s1")).i("s2", l.i("s2")).b("a", bytes_of(s.ct.a)).b("c", bytes_of(s.ct.beta)).i("frame", f);
  };
  ops["AddL"] = [&](const Line &l) { lab2(l, "AddL", false); };
  ops["SubL"] = [&](const Line &l) { lab2(l, "SubL", true); };
  ops["CMulL"] = [&](const Line &l) {
    Ct &x = at(l, "s1"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z k(l.s("x")), k0 = k, b;
    mpz_mul(b.v, x.b.v, k.v);
    reduce(b, K);
    he_eval_cmult(&s.ct, &x.ct, k.v, K.N.v, K.k);
    s.key = x.key; s.lab = true; s.b = b;
    Ev("CMulL").i("s", l.i("s")).i("s1", l.i("s1")).b("x", bytes_of(k0)).b("a", bytes_of(s.ct.a)).b("c", bytes_of(s.ct.beta)).i("frame", k == k0);
  };
  auto alpha2 = [&](const Line &l, const char *name, bool sub) {
    Ct &x = at(l, "s1"), &y = at(l, "s2"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z b;
    if (sub) mpz_sub(b.v, x.b.v, y.b.v); else mpz_add(b.v, x.b.v, y.b.v);
    reduce(b, K);
    Z xc = x.c, yc = y.c;
    if (sub) he_eval_sub(s.c.v, x.c.v, y.c.v, K.N.v); else he_eval_add(s.c.v, x.c.v, y.c.v, K.N.v);
    bool f = (&s == &x || xc == x.c) && (&s == &y || yc == y.c);
    s.key = x.key; s.lab = false; s.b = b;
    Ev(name).i("s", l.i("s")).i("s1", l.i("s1")).i("s2", l.i("s2")).b("c", bytes_of(s.c)).i("frame", f);
  };
  ops["AddA"] = [&](const Line &l) { alpha2(l, "AddA", false); };
  ops["SubA"] = [&](const Line &l) { alpha2(l, "SubA", true); };
  ops["CMulA"] = [&](const Line &l) {
    Ct &x = at(l, "s1"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z k(l.s("x")), k0 = k, b;
    mpz_mul(b.v, x.b.v, k.v);
    reduce(b, K);
    he_eval_cmult(s.c.v, x.c.v, k.v, K.N.v);
    s.key = x.key; s.lab = false; s.b = b;
    Ev("CMulA").i("s", l.i("s")).i("s1", l.i("s1")).b("x", bytes_of(k0)).b("c", bytes_of(s.c)).i("frame", k == k0);
  };
  ops["Mult"] = [&](const Line &l) {
    Ct &x = at(l, "s1"), &y = at(l, "s2"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z b;
    mpz_mul(b.v, x.b.v, y.b.v);
    reduce(b, K);
    Z xa, xc, ya, yc;
    mpz_set(xa.v, x.ct.a); mpz_set(xc.v, x.ct.beta); mpz_set(ya.v, y.ct.a); mpz_set(yc.v, y.ct.beta);
    he_eval_mult(s.c.v, rng.s, &x.ct, &y.ct, K.y.v, K.N.v, K.k);
    bool f = !mpz_cmp(xa.v, x.ct.a) && !mpz_cmp(xc.v, x.ct.beta) && !mpz_cmp(ya.v, y.ct.a) && !mpz_cmp(yc.v, y.ct.beta);
    s.key = x.key; s.lab = false; s.b = b;
    Ev("Mult").i("s", l.i("s")).i("s1", l.i("s1")).i("s2", l.i("s2")).b("c", bytes_of(s.c)).i("frame", f);
  };
  ops["Mult3"] = [&](const Line &l) {
    Ct &x = at(l, "s1"), &y = at(l, "s2"), &z = at(l, "s3"), &h12 = at(l, "h12"), &h13 = at(l, "h13"), &h23 = at(l, "h23"), &s = at(l, "s");
    Key &K = keys[x.key];
    Z b;
    mpz_mul(b.v, x.b.v, y.b.v);
    mpz_mul(b.v, b.v, z.b.v);
    reduce(b, K);
    Z k12 = h12.c, k13 = h13.c, k23 = h23.c;
    he_eval_mult_3(s.c.v, rng.s, &x.ct, &y.ct, &z.ct, h12.c.v, h13.c.v, h23.c.v, K.y.v, K.N.v, K.k);
    bool f = k12 == h12.c && k13 == h13.c && k23 == h23.c;
    s.key = x.key; s.lab = false; s.b = b;
    Ev("Mult3").i("s", l.i("s")).i("s1", l.i("s1")).i("s2", l.i("s2")).i("s3", l.i("s3")).i("h12", l.i("h12")).i("h13", l.i("h13")).i("h23", l.i("h23"))
      .b("c", bytes_of(s.c)).i("frame", f);
  };
  ops["DecL"] = [&](const Line &l) {
    Ct &x = at(l, "s");
    Key &K = keys[x.key];
    Z m, a, c;
    mpz_set(a.v, x.ct.a); mpz_set(c.v, x.ct.beta);
    mpz_set_ui(m.v, 12345);
    he_decrypt(m.v, &x.ct, K.p.v, K.y.v, K.k);
    Ev("DecL").i("s", l.i("s")).b("m", bytes_of(m)).i("frame", !mpz_cmp(a.v, x.ct.a) && !mpz_cmp(c.v, x.ct.beta));
  };
  ops["DecA"] = [&](const Line &l) {
    Ct &x = at(l, "s");
    Key &K = keys[x.key];
    Z m, b = l.has("b") ? Z(l.s("b")) : x.b, b0 = b, c0 = x.c;
    mpz_set_ui(m.v, 12345);
    he_decrypt(m.v, x.c.v, b.v, K.p.v, K.y.v, K.k);
    Ev("DecA").i("s", l.i("s")).b("b", bytes_of(b0)).b("m", bytes_of(m)).i("frame", b == b0 && x.c == c0);
  };
  return run(argc, argv, ops);
}
