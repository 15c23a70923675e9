// big integers in schedules (hex) and traces (big-endian bytes)
#pragma once
#include "drv.h"
#include <gmp.h>
namespace drv {
struct Z {
  mpz_t v;
  Z() { mpz_init(v); }
  Z(const Z &o) { mpz_init_set(v, o.v); }
  Z &operator=(const Z &o) { mpz_set(v, o.v); return *this; }
  explicit Z(const std::string &hex) { if (hex.empty()) mpz_init(v); else mpz_init_set_str(v, hex.c_str(), 16); }
  ~Z() { mpz_clear(v); }
  bool operator==(const Z &o) const { return mpz_cmp(v, o.v) == 0; }
};
inline Bytes bytes_of(const mpz_t x) {
  if (mpz_sgn(x) < 0) return Bytes{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255};
  Bytes r((mpz_sizeinbase(x, 2) + 7) / 8);
  size_t n = 0;
  mpz_export(r.data(), &n, 1, 1, 1, 0, x);
  r.resize(n);
  return r;
}
inline Bytes bytes_of(const Z &z) { return bytes_of(z.v); }
struct Rng {
  gmp_randstate_t s;
  Rng() { gmp_randinit_mt(s); }
  ~Rng() { gmp_randclear(s); }
};
} // namespace drv
