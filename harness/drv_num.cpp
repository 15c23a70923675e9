// Joye-Libert and the labelled schemes as operations on values.  Values have names; each operation copies its operands into
// the places the schedule names and stores its result in another one, or over an operand.  Built with -DMU for the multi-user copy.
#include "gmp_ops.h"
#ifdef MU
#include "mu_labeled_he.h"
#define he_keygen mu_he_setup
#define he_encrypt mu_he_encrypt
#define he_decrypt mu_he_decrypt
#define he_eval_add mu_he_eval_add
#define he_eval_sub mu_he_eval_sub
#define he_eval_mult mu_he_eval_mult
#define he_eval_mult_3 mu_he_eval_mult_3
#define he_eval_cmult mu_he_eval_cmult
#else
#include "labeled_he.h"
#endif
#include "joye_libert.h"
using namespace drv;
static std::vector<std::string> split(const std::string &s) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; }
  return r;
}
struct Place {              // a number, or a labelled ciphertext and its mask
  he_ct ct;
};
int main(int argc, char **argv) {
  std::map<std::string, Z> values;
  std::map<long, Z> places;
  std::map<long, std::unique_ptr<Place>> cplaces;
  std::map<long, std::unique_ptr<Rng>> rngs;
  std::map<long, std::unique_ptr<State<hc128_state>>> masks;
  Ops ops;
  // one operation: in= names (or #hex), at= places of the operands, out= names of the results, to= their places.  The operands
  // that are labelled ciphertexts come first and are named once, for x that is xa and xc.
  auto operation = [&](const char *op, size_t cts, bool ctout, void (*f)(mpz_t **n, he_ct **c, mpz_t **r, he_ct *o, gmp_randstate_t &, hc128_state *, uint32_t, uint32_t)) {
    ops[op] = [&, op, cts, ctout, f](const Line &l) {
      auto in = split(l.s("in")), at = split(l.s("at")), out = split(l.s("out")), to = split(l.s("to"));
      Bytes ins, outs;
      auto log = [](Bytes &b, const mpz_t v) { Bytes x = bytes_of(v); b.push_back((uint8_t)(x.size() >> 8)); b.push_back((uint8_t)x.size()); b.insert(b.end(), x.begin(), x.end()); };
      mpz_t *n[12], *r[4];
      he_ct *c[4], *o = nullptr;
      std::map<long, int> results, cresults;
      for (size_t i = 0; i < in.size(); i++) {
        long a = strtol(at[i].c_str(), nullptr, 10);
        if (i < cts) {
          auto &p = cplaces[a];
          if (!p) p.reset(new Place());
          auto va = values.find(in[i] + "a"), vc = values.find(in[i] + "c");
          if (va == values.end() || vc == values.end()) { fprintf(stderr, "no value %s\n", in[i].c_str()); _exit(3); }
          mpz_set(p->ct.a, va->second.v); mpz_set(p->ct.beta, vc->second.v);
          log(ins, p->ct.a); log(ins, p->ct.beta);
          c[i] = &p->ct;
        } else {
          Z &z = places[a];
          if (in[i][0] == '#') z = Z(in[i].substr(1));
          else { auto v = values.find(in[i]); if (v == values.end()) { fprintf(stderr, "no value %s\n", in[i].c_str()); _exit(3); } z = v->second; }
          log(ins, z.v);
          n[i - cts] = &z.v;
        }
      }
      for (size_t i = 0; i < to.size(); i++) {
        long a = strtol(to[i].c_str(), nullptr, 10);
        if (ctout && i == 0) { auto &p = cplaces[a]; if (!p) p.reset(new Place()); o = &p->ct; cresults[a] = 1; }
        else { r[i - ctout] = &places[a].v; results[a] = 1; }
      }
      auto &g = rngs[l.i("g")];
      if (!g) g.reset(new Rng());
      gmp_randseed_ui(g->s, (unsigned long)l.i("x"));
      auto &m = masks[l.i("h")];
      if (!m) m.reset(new State<hc128_state>());
      if (l.has("key")) {
        Bytes key = l.b("key"), iv = l.b("iv");
        hc128_initialize((*m)(), key.data(), iv.data());
        ins.insert(ins.end(), key.begin(), key.end()); ins.insert(ins.end(), iv.begin(), iv.end());
      }
      std::map<long, Z> before = places;
      std::map<long, std::pair<Z, Z>> cbefore;
      for (auto &p : cplaces) { auto &q = cbefore[p.first]; mpz_set(q.first.v, p.second->ct.a); mpz_set(q.second.v, p.second->ct.beta); }
      dirty_stack();
      f(n, c, r, o, g->s, (*m)(), (uint32_t)l.i("k"), (uint32_t)l.i("x"));
      bool kept = m->guards();
      for (auto &p : before) if (!results.count(p.first) && !(p.second == places[p.first])) kept = false;
      for (auto &p : cbefore) if (!cresults.count(p.first) && (mpz_cmp(p.second.first.v, cplaces[p.first]->ct.a) || mpz_cmp(p.second.second.v, cplaces[p.first]->ct.beta))) kept = false;
      for (size_t i = 0; i < to.size(); i++) {
        if (ctout && i == 0) {
          mpz_set(values[out[i] + "a"].v, o->a); mpz_set(values[out[i] + "c"].v, o->beta);
          log(outs, o->a); log(outs, o->beta);
        } else { mpz_set(values[out[i]].v, *r[i - ctout]); log(outs, *r[i - ctout]); }
      }
      Z next;                  // how far the generator and the mask were used
      mpz_urandomb(next.v, g->s, 32);
      log(outs, next.v);
      if (l.has("key")) { uint8_t z[8] = {0}; hc128_process_packet((*m)(), z, z, 8); outs.insert(outs.end(), z, z + 8); }
      Ev(op).i("k", l.i("k")).i("x", l.i("x")).b("in", ins).b("out", outs).i("kept", kept);
    };
  };
#define F [](mpz_t **n, he_ct **c, mpz_t **r, he_ct *o, gmp_randstate_t &g, hc128_state *h, uint32_t k, uint32_t x) { (void)n; (void)c; (void)r; (void)o; (void)g; (void)h; (void)k; (void)x;
  operation("KeyGen", 0, false, F joye_libert_keygen(*r[0], *r[1], *r[2], k, x); });
  operation("LKeyGen", 0, false, F he_keygen(*r[0], *r[1], *r[2], k, x); });
#ifdef MU
  operation("UserKey", 0, false, F mu_he_keygen(*r[0], *r[1], g, *n[0], *n[1], k); });
#endif
  operation("Enc", 0, false, F joye_libert_encrypt(*r[0], g, *n[0], *n[1], *n[2], k); });
  operation("Dec", 0, false, F joye_libert_decrypt(*r[0], *n[0], *n[1], *n[2], k); });
  operation("LEnc", 0, true, F he_encrypt(o, g, h, *r[0], *n[0], *n[1], *n[2], *n[3], k); });
  operation("LAdd", 2, true, F he_eval_add(o, c[0], c[1], *n[0], k); });
  operation("LSub", 2, true, F he_eval_sub(o, c[0], c[1], *n[0], k); });
  operation("LCMul", 1, true, F he_eval_cmult(o, c[0], *n[0], *n[1], k); });
  operation("AAdd", 0, false, F he_eval_add(*r[0], *n[0], *n[1], *n[2]); });
  operation("ASub", 0, false, F he_eval_sub(*r[0], *n[0], *n[1], *n[2]); });
  operation("ACMul", 0, false, F he_eval_cmult(*r[0], *n[0], *n[1], *n[2]); });
  operation("Mult", 2, false, F he_eval_mult(*r[0], g, c[0], c[1], *n[0], *n[1], k); });
  operation("Mult3", 3, false, F he_eval_mult_3(*r[0], g, c[0], c[1], c[2], *n[0], *n[1], *n[2], *n[3], *n[4], k); });
  operation("LDec", 1, false, F he_decrypt(*r[0], c[0], *n[0], *n[1], k); });
  operation("ADec", 0, false, F he_decrypt(*r[0], *n[0], *n[1], *n[2], *n[3], k); });
  return run(argc, argv, ops);
}
