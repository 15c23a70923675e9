#include "gmp_ops.h"
#include "joye_libert.h"
using namespace drv;
struct Key { Z N, y, p; uint32_t k = 0; };
struct Ct { long key = 0; Z c; };
int main(int argc, char **argv) {
  std::map<long, Key> keys;
  std::map<long, Ct> cts;
  std::map<long, std::unique_ptr<Rng>> rngs;
  auto rng = [&](long i) -> gmp_randstate_t & { auto &p = rngs[i]; if (!p) p.reset(new Rng()); return p->s; };
  Ops ops;
  ops["KeyGen"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    K.k = (uint32_t)l.i("k");
    mpz_set_ui(K.N.v, 77);      // results of earlier use
    joye_libert_keygen(K.N.v, K.y.v, K.p.v, K.k, (uint32_t)l.i("size"));
    Ev("KeyGen").i("id", l.i("id")).i("k", K.k).i("size", l.i("size")).b("n", bytes_of(K.N)).b("y", bytes_of(K.y)).b("p", bytes_of(K.p));
  };
  // any valid key, also one too small for key generation to return
  ops["SetKey"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    K.k = (uint32_t)l.i("k");
    K.N = Z(l.s("n")); K.y = Z(l.s("y")); K.p = Z(l.s("p"));
    Ev("SetKey").i("id", l.i("id")).i("k", K.k).b("n", bytes_of(K.N)).b("y", bytes_of(K.y)).b("p", bytes_of(K.p));
  };
  ops["Seed"] = [&](const Line &l) { gmp_randseed_ui(rng(l.i("rng")), (unsigned long)l.i("seed")); };
  ops["Encrypt"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    Key before = K;
    Z m(l.s("m")), keep = m;
    Ct &c = cts[l.i("s")];
    c.key = l.i("id");
    bool same = true;
    if (l.i("alias")) {          // the result may replace the message
      joye_libert_encrypt(m.v, rng(l.i("rng")), m.v, K.y.v, K.N.v, K.k);
      c.c = m;
    } else {
      joye_libert_encrypt(c.c.v, rng(l.i("rng")), m.v, K.y.v, K.N.v, K.k);
      same = m == keep;
    }
    Ev("Encrypt").i("s", l.i("s")).i("id", l.i("id")).b("m", bytes_of(keep)).b("c", bytes_of(c.c)).i("frame", same && K.N == before.N && K.y == before.y);
  };
  ops["Product"] = [&](const Line &l) {
    Ct a = cts[l.i("a")], b = cts[l.i("b")];
    Ct &c = cts[l.i("s")];
    c.key = a.key;
    mpz_mul(c.c.v, a.c.v, b.c.v);
    mpz_mod(c.c.v, c.c.v, keys[a.key].N.v);
    Ev("Product").i("s", l.i("s")).i("a", l.i("a")).i("b", l.i("b")).b("c", bytes_of(c.c));
  };
  ops["Power"] = [&](const Line &l) {
    Ct a = cts[l.i("a")];
    Z x(l.s("x"));
    Ct &c = cts[l.i("s")];
    c.key = a.key;
    mpz_powm(c.c.v, a.c.v, x.v, keys[a.key].N.v);
    Ev("Power").i("s", l.i("s")).i("a", l.i("a")).b("x", bytes_of(x)).b("c", bytes_of(c.c));
  };
  auto decrypt = [&](Key &K, Z &c, Z &m) {
    Key before = K;
    Z keep = c;
    mpz_set_ui(m.v, 99991);
    joye_libert_decrypt(m.v, c.v, K.p.v, K.y.v, K.k);
    return c == keep && K.p == before.p && K.y == before.y;
  };
  ops["Decrypt"] = [&](const Line &l) {
    Ct &c = cts[l.i("s")];
    Z m;
    bool f = decrypt(keys[c.key], c.c, m);
    Ev("Decrypt").i("s", l.i("s")).b("m", bytes_of(m)).i("frame", f);
  };
  ops["Raw"] = [&](const Line &l) {
    Key &K = keys[l.i("id")];
    Z c(l.s("c")), m, g;
    mpz_mod(c.v, c.v, K.N.v);
    mpz_gcd(g.v, c.v, K.N.v);
    if (mpz_cmp_ui(g.v, 1) != 0) return;
    bool f = decrypt(K, c, m);
    Ev("Raw").i("id", l.i("id")).b("c", bytes_of(c)).b("m", bytes_of(m)).i("frame", f);
  };
  return run(argc, argv, ops);
}
