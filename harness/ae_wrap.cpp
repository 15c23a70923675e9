// Linked between the example program and the library (ld --wrap): records the calls the program makes and plays the
// channel.  Right after the n-th tag has been made, the bytes under it or the tag are changed, as AE_FAULT says:
// "n body bit", "n tag bit", "n other 0" (the previous packet's tag instead).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <string>
#include "hmac.h"
#include "aes_cfb.h"
#include "hc128.h"
// TAG, CHECK, CFB, INIT, HC: the symbols of the five functions, given on the command line.  Sizes are declared as 64-bit
// values and cut to int, so that the wrappers serve whatever integer type the library uses for them.
typedef int64_t num;
#define J2(a, b) a##b
#define J(a, b) J2(a, b)
#define REAL(x) J(__real_, x)
#define WRAP(x) J(__wrap_, x)
static std::string list(const uint8_t *p, size_t n) {
  std::string s = "[";
  for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(p[i]);
  return s + "]";
}
static void ev(const std::string &s) {
  static FILE *t = fopen(getenv("AE_TRACE"), "w");
  if (!t) _Exit(3);
  fputs(("{\"e\":" + s + "}\n").c_str(), t);
  fflush(t);
}
static int made = 0;
static uint8_t before[64];
extern "C" {
void REAL(TAG)(hmac_state *, uint8_t *, uint8_t *, num, num);
int REAL(CHECK)(hmac_state *, uint8_t *, uint8_t *, num, num);
void REAL(CFB)(aes_state *, uint8_t *, uint8_t *, num, num);
void REAL(HC)(hc128_state *, uint8_t *, uint8_t *, num);
void WRAP(TAG)(hmac_state *c, uint8_t *tag, uint8_t *m, num n_, num t_) {
  int n = n_, t = t_;
  REAL(TAG)(c, tag, m, n, t);
  ev("\"Make\",\"body\":" + list(m, n) + ",\"tag\":" + list(tag, t));
  uint8_t keep[64];
  memcpy(keep, tag, t < 64 ? t : 64);
  int which = 0; char what[16] = ""; long bit = 0;
  if (getenv("AE_FAULT")) sscanf(getenv("AE_FAULT"), "%d %15s %ld", &which, what, &bit);
  if (++made == which) {
    if (!strcmp(what, "body")) m[bit / 8 % n] ^= 1 << bit % 8;
    if (!strcmp(what, "tag")) tag[bit / 8 % t] ^= 1 << bit % 8;
    if (!strcmp(what, "other")) memcpy(tag, before, t < 64 ? t : 64);
  }
  memcpy(before, keep, sizeof before);
}
int WRAP(CHECK)(hmac_state *c, uint8_t *tag, uint8_t *m, num n_, num t_) {
  int n = n_, t = t_;
  int r = REAL(CHECK)(c, tag, m, n, t);
  ev("\"Check\",\"body\":" + list(m, n) + ",\"tag\":" + list(tag, t) + ",\"res\":" + std::to_string(r != 0));
  return r;
}
void REAL(INIT)(hc128_state *, uint8_t *, uint8_t *);
// the IV each synchronous cipher was given
static std::map<const void *, std::string> ivs;
void WRAP(INIT)(hc128_state *c, uint8_t *key, uint8_t *iv) {
  ivs[c] = list(iv, HC128_IV_SIZE);
  REAL(INIT)(c, key, iv);
}
static void crypt(const void *c, const std::string &in, const uint8_t *out, size_t n) {
  ev("\"Crypt\",\"iv\":" + (ivs.count(c) ? ivs[c] : "[]") + ",\"in\":" + in + ",\"out\":" + list(out, n));
}
void WRAP(CFB)(aes_state *c, uint8_t *out, uint8_t *in, num n_, num mode_) {
  int n = n_, mode = mode_;
  std::string i = list(in, n);
  REAL(CFB)(c, out, in, n, mode);
  crypt(c, i, out, n);
}
void WRAP(HC)(hc128_state *c, uint8_t *out, uint8_t *in, num n_) {
  int n = n_;
  std::string i = list(in, n);
  REAL(HC)(c, out, in, n);
  crypt(c, i, out, n);
}
}
