// Transcript of the zero-knowledge program (include/linear_gkr/transcript.h, include/infrastructure/my_hhash.h):
// challenges are a deterministic, reduced function of everything recorded before; the proof file holds the messages.
#include <iostream>
#include <unistd.h>
#include "circ.h"
#include "fe.h"
#include "fresh.h"
#include "linear_gkr/transcript.h"
namespace th {
// AES-128 decryption with its own key schedule
static __m128i rk_next(__m128i k, __m128i g) { g = _mm_shuffle_epi32(g, 0xff); k = _mm_xor_si128(k, _mm_slli_si128(k, 4)); k = _mm_xor_si128(k, _mm_slli_si128(k, 8)); return _mm_xor_si128(k, g); }
static __m128i aes_dec(__m128i c, __m128i key) {
  __m128i k[11]; k[0] = key;
#define RK(i, rc) k[i] = rk_next(k[i - 1], _mm_aeskeygenassist_si128(k[i - 1], rc));
  RK(1, 1) RK(2, 2) RK(3, 4) RK(4, 8) RK(5, 16) RK(6, 32) RK(7, 64) RK(8, 128) RK(9, 0x1b) RK(10, 0x36)
#undef RK
  c = _mm_xor_si128(c, k[10]); for (int i = 9; i > 0; --i) c = _mm_aesdec_si128(c, _mm_aesimc_si128(k[i])); return _mm_xor_si128(_mm_aesdeclast_si128(c, _mm_setzero_si128()), k[0]);
}
static bool same(__m128i a, __m128i b) { return !memcmp(&a, &b, 16); }
using std::string; using std::vector; using fe::F;
// F value: field message, C value: curve message, R n: draw n challenges
struct Op { char k; mpz_class v; };
struct Mut { int kind; long at, bit; mpz_class v; };
struct Case { vector<Op> ops; vector<Mut> muts; };
static string ser(const Case &c) { std::ostringstream o; o << "ops " << c.ops.size() << "\n"; for (auto &p : c.ops) o << p.k << " " << p.v << "\n"; o << "alterations " << c.muts.size() << "\n"; for (auto &m : c.muts) o << m.kind << " " << m.at << " " << m.bit << " " << m.v << "\n"; return o.str(); }
static Case deser(const string &s) { Case c; std::istringstream i(s); string w; size_t n = 0; i >> w >> n; c.ops.resize(n); for (auto &p : c.ops) i >> p.k >> p.v; n = 0; i >> w >> n; c.muts.resize(n); for (auto &m : c.muts) i >> m.kind >> m.at >> m.bit >> m.v; return c; }
static bn::Ec1 curve(const mpz_class &v) { return bn::Ec1(bn_ideal::G<1>(bn_ideal::S::of(v))); }
struct Run { vector<vector<mpz_class>> ch; proof_transcript t; };
static void run(const vector<Op> &ops, Run &r) {
  for (auto &p : ops) {
    if (p.k == 'F') r.t.msg.push_back(container(fe::put(p.v), container::fld_ele_indicator));
    else if (p.k == 'C') r.t.msg.push_back(container(curve(p.v)));
    else { int n = (int)p.v.get_si(); vector<mpz_class> c; if (n == 0) c.push_back(fe::get(r.t.random())); else { F *a = r.t.random(n); for (int i = 0; i < n; ++i) c.push_back(fe::get(a[i])); delete[] a; } r.ch.push_back(c); }
  }
}
static string bytes32(const mpz_class &v) { string s(32, 0); mpz_export(&s[0], 0, -1, 1, 0, 0, v.get_mpz_t()); return s; }
static string slurp(const string &p) { return pbt::read_file(p); }
static pbt::Result check(const string &text) {
  pbt::Result r; Case c = deser(text); Run a, b; run(c.ops, a); run(c.ops, b);
  long nm = 0, nr = 0; for (auto &p : c.ops) p.k == 'R' ? ++nr : ++nm;
  r.nontrivial = nm >= 2 && nr >= 1 && !c.muts.empty(); r.label(nr > 2 ? "many draws" : "few draws"); if (nm > 40) r.label("long");
  if (a.ch != b.ch) r.fail("the same messages give different challenges");
  vector<mpz_class> all; for (auto &x : a.ch) for (auto &y : x) { if (y < 0 || y >= circ::P()) r.fail("a challenge is not reduced"); all.push_back(y); }
  std::sort(all.begin(), all.end()); for (size_t i = 1; i < all.size(); ++i) if (all[i] == all[i - 1]) r.fail("two challenges of one transcript are equal");
  { fresh::Vals v; for (auto &x : a.ch) for (auto &y : x) v.push_back({"challenge " + std::to_string(v.size()), y}); if (r.ok) fresh::plain(v, r); }
  // the proof file
  { char path[] = "proofXXXXXX"; const char *td = getenv("TMPDIR"); string p = string(td ? td : "/tmp") + "/" + path; int fd = mkstemp(&p[0]); close(fd);
    a.t.output_to_file(&p[0]); string got = slurp(p), want; unlink(p.c_str());
    for (auto &o : c.ops) { if (o.k == 'F') want += bytes32(circ::md(o.v)); else if (o.k == 'C') { bn::Ec1 e = curve(o.v); want += string((const char *)&e, sizeof e); } }
    if (got != want) r.fail("the proof file does not hold the recorded messages in order"); if (a.t.get_proof_size() != (int)want.size()) r.fail("the proof size is not the size of the messages"); }
  auto first_draw = [&](size_t pos) { size_t d = 0; for (size_t i = 0; i < pos; ++i) d += c.ops[i].k == 'R'; return d; };
  for (auto &m : c.muts) {
    vector<Op> o = c.ops; size_t pos = 0; string what; size_t shift = 0;
    if (m.kind <= 1) {                                   // one bit, or another value
      vector<size_t> idx; for (size_t i = 0; i < o.size(); ++i) if (o[i].k != 'R') idx.push_back(i); if (idx.empty()) continue; pos = idx[(size_t)m.at % idx.size()]; mpz_class old = circ::md(o[pos].v), v;
      if (m.kind == 0) { v = old; mpz_combit(v.get_mpz_t(), (mp_bitcnt_t)(m.bit % 254)); } else v = m.v; v = circ::md(v); if (v == old) continue; o[pos].v = v; what = "a message was altered";
    } else if (m.kind == 2) {                            // two messages exchanged
      vector<size_t> idx; for (size_t i = 0; i + 1 < o.size(); ++i) if (o[i].k != 'R' && o[i + 1].k != 'R' && circ::md(o[i].v) != circ::md(o[i + 1].v)) idx.push_back(i); if (idx.empty()) continue; pos = idx[(size_t)m.at % idx.size()]; std::swap(o[pos], o[pos + 1]); what = "two messages were exchanged";
    } else if (m.kind == 3) {                            // one more draw earlier in the history
      pos = 1 + (size_t)m.at % o.size(); if (o[0].k == 'R') continue; Op n; n.k = 'R'; n.v = 1; o.insert(o.begin() + pos, n); shift = 1; what = "an additional challenge was drawn";
    } else continue;
    Run q; run(o, q); size_t d = first_draw(pos); if (d < a.ch.size()) r.label("alteration seen by later draws");
    for (size_t i = 0; i < d; ++i) if (q.ch[i] != a.ch[i]) r.fail("an earlier challenge depends on a later message");
    if (shift) continue;
    for (size_t i = d; i < a.ch.size(); ++i) for (size_t j = 0; j < a.ch[i].size(); ++j) if (q.ch[i][j] == a.ch[i][j]) r.fail("a later challenge did not change although " + what + " (operation " + std::to_string(pos) + ", draw " + std::to_string(i) + ", element " + std::to_string(j) + ")");
  }
  // the compression function by itself
  { unsigned char buf[64], b2[64]; pbt::Rng g(pbt::hash_str(text)); for (auto &x : buf) x = (unsigned char)g.next(); __hhash_digest h1, h2; my_hhash(buf, &h1); my_hhash(buf, &h2); if (!equals(h1, h2)) r.fail("the hash is not deterministic");
    for (int hf = 0; hf < 2; ++hf) {                       // nobody can compute a block from its digest and the key half of the block (or the other way round)
      __m128i k, t, h; memcpy(&k, buf + 32 * hf, 16); memcpy(&t, buf + 32 * hf + 16, 16); memcpy(&h, (char *)&h1 + 16 * hf, 16);
      if (same(aes_dec(h, k), t) || same(aes_dec(_mm_xor_si128(h, k), k), t) || same(aes_dec(h, t), k) || same(aes_dec(_mm_xor_si128(h, t), t), k) || same(h, k) || same(h, t) || same(_mm_xor_si128(h, k), t)) r.fail("a hashed block can be computed back from its digest");
    }
    memcpy(b2, buf, 64); int bit = (int)g.range(0, 511); b2[bit / 8] ^= (unsigned char)(1 << (bit % 8)); my_hhash(b2, &h2); if (equals(h1, h2) || !memcmp(&h1, &h2, 32)) r.fail("two blocks that differ in bit " + std::to_string(bit) + " have the same digest");
    h2 = h1; int db = (int)g.range(0, 255); ((unsigned char *)&h2)[db / 8] ^= (unsigned char)(1 << (db % 8)); if (equals(h1, h2)) r.fail("digests that differ in bit " + std::to_string(db) + " compare equal"); }
  return r;
}
static mpz_class val(pbt::Rng &r) { switch (r.range(0, 7)) { case 0: return 0; case 1: return 1; case 2: return circ::P() - 1; case 3: { mpz_class x = 1; return circ::md(x << (unsigned)r.range(0, 253)); } default: return fe::rnd(r); } }
static string gen(pbt::Rng &r, long i) {
  Case c; int n = (int)r.range(2, i % 2500 == 7 ? 700 : i % 20 == 3 ? 120 : 16); for (int k = 0; k < n; ++k) { Op o; int w = k == 0 ? r.weighted({3, 2}) : r.weighted({5, 3, 2}); o.k = w == 0 ? 'F' : w == 1 ? 'C' : 'R'; o.v = o.k == 'R' ? mpz_class((long)r.range(0, 12)) : val(r); c.ops.push_back(o); }
  { Op o; o.k = 'R'; o.v = (long)r.range(0, 5); c.ops.push_back(o); }
  int m = (int)r.range(1, 6); for (int k = 0; k < m; ++k) { Mut q; q.kind = r.weighted({5, 2, 2, 1}); q.at = (long)r.range(0, 1 << 20); q.bit = (long)r.range(0, 253); q.v = val(r); c.muts.push_back(q); }
  return ser(c);
}
static vector<string> shrink(const string &s) {
  Case k = deser(s); vector<string> out;
  for (size_t i = 0; i < k.muts.size(); ++i) { Case n = k; n.muts.erase(n.muts.begin() + i); out.push_back(ser(n)); }
  for (size_t i = 0; i < k.ops.size(); ++i) { Case n = k; n.ops.erase(n.ops.begin() + i); if (!n.ops.empty() && n.ops[0].k != 'R') out.push_back(ser(n)); }
  for (auto &m : k.muts) if (m.at) { long o = m.at; m.at = o / 2; out.push_back(ser(k)); m.at = o % 64 == o ? o - 1 : o % 64; out.push_back(ser(k)); m.at = o; }
  for (auto &p : k.ops) if (p.v > 1) { mpz_class o = p.v; p.v = 1; out.push_back(ser(k)); p.v = o; }
  return out;
}
}  // namespace th
int main(int argc, char **argv) {
  fe::init(); std::vector<pbt::Mode> m; m.push_back({"transcript", "at least two messages, one draw and one alteration", th::gen, th::check, th::shrink}); return pbt::main_(argc, argv, m);
}
