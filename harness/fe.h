// Conversions between the library's field elements and GMP integers, by raw limbs (independent of the library's own conversions).
#pragma once
#include "circ.h"
#include "linear_gkr/prime_field.h"
namespace fe {
typedef prime_field::field_element F;
inline mpz_class z128(unsigned __int128 x) { mpz_class r = (unsigned long)(x >> 64); r <<= 64; r += (unsigned long)(x); return r; }
inline mpz_class get(const F &f) {
  mpz_class r = z128(f.value.hi.hi); r <<= 64; r += (unsigned long)f.value.hi.mid; r <<= 64; r += (unsigned long)f.value.hi.lo;
  r <<= 128; r += z128(f.value.mid); r <<= 128; r += z128(f.value.lo); return r;
}
inline unsigned __int128 limb(const mpz_class &x, int sh) { mpz_class t = x >> sh; mpz_class lo = t & mpz_class("18446744073709551615"), hi = (t >> 64) & mpz_class("18446744073709551615"); return ((unsigned __int128)hi.get_ui() << 64) | lo.get_ui(); }
inline F put_raw(const mpz_class &x) { F f; f.value.lo = limb(x, 0); f.value.mid = limb(x, 128); unsigned __int128 h = limb(x, 256); f.value.hi.lo = (unsigned long long)h; f.value.hi.mid = (unsigned long long)(h >> 64); f.value.hi.hi = limb(x, 384); return f; }
inline F put(const mpz_class &x) { return put_raw(circ::md(x)); }
inline mpz_class rnd(pbt::Rng &r) { mpz_class z = 0; for (int i = 0; i < 5; ++i) { z <<= 64; z += (unsigned long)r.next(); } return circ::md(z); }
// interesting non-zero field values
inline mpz_class delta(long long k, pbt::Rng &r) {
  mpz_class one = 1;
  switch (k % 9) { case 0: return 1; case 1: return circ::P() - 1; case 2: return one << 64; case 3: return one << 128; case 4: return one << 192; case 5: return (one << 253) ; case 6: return one << 32; default: { mpz_class z; do z = rnd(r); while (z == 0); return z; } }
}
inline void init() { prime_field::init(circ::P_STR, 10); }
// write a text to a memfd and return a path that fopen can read
struct MemFile { int fd; std::string path; MemFile(const std::string &s) { fd = memfd_create("circ", 0); ssize_t n = 0; while (n < (ssize_t)s.size()) { ssize_t w = write(fd, s.data() + n, s.size() - n); if (w <= 0) break; n += w; } lseek(fd, 0, SEEK_SET); path = "/proc/self/fd/" + std::to_string(fd); } ~MemFile() { close(fd); } };
// square root mod p (p = 1 mod 4 possible): Tonelli-Shanks through GMP arithmetic; returns false for non-residues
inline bool msqrt(const mpz_class &a0, mpz_class &out) {
  const mpz_class &p = circ::P(); mpz_class a = circ::md(a0); if (a == 0) { out = 0; return true; }
  if (mpz_legendre(a.get_mpz_t(), p.get_mpz_t()) != 1) return false;
  mpz_class q = p - 1, z = 2, c, t, r, b; unsigned long s = 0; while (mpz_even_p(q.get_mpz_t())) { q >>= 1; ++s; }
  while (mpz_legendre(z.get_mpz_t(), p.get_mpz_t()) != -1) z += 1;
  auto pw = [&](const mpz_class &x, const mpz_class &e) { mpz_class y; mpz_powm(y.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); return y; };
  c = pw(z, q); t = pw(a, q); mpz_class h = (q + 1) / 2; r = pw(a, h); unsigned long m = s;
  while (t != 1) { unsigned long i = 0; mpz_class tt = t; while (tt != 1) { tt = circ::md(tt * tt); ++i; if (i == m) return false; } b = c; for (unsigned long k = 0; k + i + 1 < m; ++k) b = circ::md(b * b); m = i; c = circ::md(b * b); t = circ::md(t * c); r = circ::md(r * b); }
  out = r; return true;
}
// the prover's own value of the output polynomial at a random point: the multilinear extension of the outputs (nothing to check if there is no such method)
struct Pt { std::vector<F> r, q; std::vector<mpz_class> z; Pt(size_t n, pbt::Rng &g) { for (size_t i = 0; i < n; ++i) { mpz_class x = g.chance(1, 4) ? mpz_class((unsigned long)g.range(0, 1)) : rnd(g); z.push_back(x); r.push_back(put(x)); q.push_back(put(1 - x)); } } };
template <class P> auto vres(P &p, const Pt &a, const Pt &b, const std::vector<F> &o, F &v, int) -> decltype(v = p.V_res(a.q.data(), a.r.data(), o.data(), 1, 1), true) { if (b.r.size()) return false; v = p.V_res(a.q.data(), a.r.data(), o.data(), (int)a.r.size(), (int)o.size()); return true; }
template <class P> auto vres(P &p, const Pt &a, const Pt &b, const std::vector<F> &o, F &v, long) -> decltype(v = p.V_res(a.q.data(), a.r.data(), b.q.data(), b.r.data(), o.data(), 1, 1, 1), true) { v = p.V_res(a.q.data(), a.r.data(), b.q.data(), b.r.data(), o.data(), (int)a.r.size(), (int)b.r.size(), (int)o.size()); return true; }
template <class P> bool vres(P &, const Pt &, const Pt &, const std::vector<F> &, F &, ...) { return false; }
template <class P> bool vres_ok(P &p, const std::vector<mpz_class> &out, int logb, uint64_t seed) {
  pbt::Rng g(seed * 131 + 3); int n = 0; while (((size_t)1 << n) < out.size()) ++n; Pt a(n - logb, g), b(logb, g); std::vector<F> o; for (auto &x : out) o.push_back(put(x)); F v;
  if (!vres(p, a, b, o, v, 0)) return true;
  std::vector<mpz_class> t = out, pt = a.z; pt.insert(pt.end(), b.z.begin(), b.z.end());
  for (auto &x : pt) { for (size_t j = 0; j < t.size() / 2; ++j) t[j] = circ::md(t[2 * j] * (1 - x) + t[2 * j + 1] * x); t.resize(t.size() / 2); }
  return get(v) == t[0];
}
}  // namespace fe
