// Stand-in for the ate-pairing library, which is not part of the repository: an ideal
// bilinear group of the same prime order. An element is the exponent of a fixed generator,
// the pairing multiplies exponents, so every equation that holds for all bilinear groups
// holds here, and no other structure of a curve is modelled.
#pragma once
#include <stdint.h>
#include <string.h>
#include <gmp.h>
#include <gmpxx.h>
#include <ostream>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <string>
namespace bn_ideal {
struct S {  // integer modulo the group order
    uint64_t v[4];
    static const uint64_t *P() { static const uint64_t w[4] = {0xa10000000000000dULL, 0xff9f800000000010ULL, 0xba344d8000000007ULL, 0x2523648240000001ULL}; return w; }
    static bool ge(const uint64_t *a, const uint64_t *b) { for (int i = 3; i >= 0; --i) if (a[i] != b[i]) return a[i] > b[i]; return true; }
    static void sub_(uint64_t *r, const uint64_t *a, const uint64_t *b) { unsigned __int128 c = 0; for (int i = 0; i < 4; ++i) { unsigned __int128 d = (unsigned __int128)a[i] - b[i] - (uint64_t)c; r[i] = (uint64_t)d; c = (d >> 64) ? 1 : 0; } }
    static S zero() { S s; memset(&s, 0, sizeof s); return s; }
    static S of(long long x) { S s = zero(); s.v[0] = x < 0 ? (uint64_t)0 - (uint64_t)x : (uint64_t)x; return x < 0 ? s.neg() : s; }
    static S of(mpz_class x) { mpz_class p; mpz_import(p.get_mpz_t(), 4, -1, 8, 0, 0, P()); x %= p; if (x < 0) x += p; S s = zero(); mpz_export(s.v, 0, -1, 8, 0, 0, x.get_mpz_t()); return s; }
    S neg() const { S r = zero(); bool z = !(v[0] | v[1] | v[2] | v[3]); if (!z) sub_(r.v, P(), v); return r; }
    S add(const S &o) const { S r; unsigned __int128 c = 0; for (int i = 0; i < 4; ++i) { c += (unsigned __int128)v[i] + o.v[i]; r.v[i] = (uint64_t)c; c >>= 64; } if (ge(r.v, P())) sub_(r.v, r.v, P()); return r; }
    S mul(const S &o) const { mp_limb_t t[8], q[5]; S r; mpn_mul_n(t, (const mp_limb_t *)v, (const mp_limb_t *)o.v, 4); mpn_tdiv_qr(q, (mp_limb_t *)r.v, 0, t, 8, (const mp_limb_t *)P(), 4); return r; }
    bool eq(const S &o) const { return !memcmp(v, o.v, sizeof v); }
    mpz_class mpz() const { mpz_class x; mpz_import(x.get_mpz_t(), 4, -1, 8, 0, 0, v); return x; }
};
// work done so far, in group operations and pairings
struct Work { double group, pairings; };
inline Work &work() { static Work w = {0, 0}; return w; }
template <int TAG> struct G {
    S s;
    G() : s(S::zero()) {}
    explicit G(const S &x) : s(x) {}
    G operator+(const G &o) const { work().group += 1; return G(s.add(o.s)); }
    G operator-(const G &o) const { work().group += 1; return G(s.add(o.s.neg())); }
    G operator-() const { return G(s.neg()); }
    G &operator+=(const G &o) { work().group += 1; s = s.add(o.s); return *this; }
    G &operator-=(const G &o) { work().group += 1; s = s.add(o.s.neg()); return *this; }
    bool operator==(const G &o) const { return s.eq(o.s); }
    bool operator!=(const G &o) const { return !s.eq(o.s); }
    bool isZero() const { return s.eq(S::zero()); }
    void clear() { s = S::zero(); }
    void normalize() const {}
};
template <int T> std::ostream &operator<<(std::ostream &o, const G<T> &g) { return o << g.s.mpz(); }
}
namespace mie {
struct Vuint {
    bn_ideal::S s;
    Vuint() : s(bn_ideal::S::zero()) {}
    Vuint(int x) : s(bn_ideal::S::of((long long)x)) {}
    explicit Vuint(const char *t) : s(bn_ideal::S::of(mpz_class(t))) {}
    explicit Vuint(const std::string &t) : s(bn_ideal::S::of(mpz_class(t))) {}
};
}
namespace bn {
struct CurveParam { int b; bool operator==(const CurveParam &o) const { return b == o.b; } bool operator!=(const CurveParam &o) const { return b != o.b; } };
static const CurveParam CurveFp254BNb = { 2 };
struct Param { static void init(const CurveParam &) {} };
struct Fp { Fp() {} Fp(int) {} explicit Fp(const char *) {} };
struct Fp2 { Fp2() {} Fp2(const Fp &, const Fp &) {} };
struct Ec1 : bn_ideal::G<1> {
    typedef bn_ideal::G<1> B;
    Ec1() {}
    Ec1(const B &b) : B(b) {}
    Ec1(const Fp &, const Fp &) { s = bn_ideal::S::of(1LL); }
};
struct Ec2 : bn_ideal::G<2> {
    typedef bn_ideal::G<2> B;
    Ec2() {}
    Ec2(const B &b) : B(b) {}
    Ec2(const Fp2 &, const Fp2 &) { s = bn_ideal::S::of(1LL); }
};
inline int bits(const mie::Vuint &k) { for (int i = 3; i >= 0; --i) if (k.s.v[i]) return 64 * i + 64 - __builtin_clzll(k.s.v[i]); return 1; }
inline Ec1 operator*(const Ec1 &a, const mie::Vuint &k) { bn_ideal::work().group += 1.5 * bits(k); return Ec1(bn_ideal::G<1>(a.s.mul(k.s))); }
inline Ec1 operator*(const Ec1 &a, int k) { return a * mie::Vuint(k); }
inline Ec2 operator*(const Ec2 &a, const mie::Vuint &k) { bn_ideal::work().group += 1.5 * bits(k); return Ec2(bn_ideal::G<2>(a.s.mul(k.s))); }
inline Ec2 operator*(const Ec2 &a, int k) { return a * mie::Vuint(k); }
struct Fp12 {
    bn_ideal::S s;
    Fp12() : s(bn_ideal::S::zero()) {}
    Fp12(int) : s(bn_ideal::S::zero()) {}  // only 1 is used: the neutral element
    Fp12 operator*(const Fp12 &o) const { Fp12 r; r.s = s.add(o.s); return r; }
    Fp12 &operator*=(const Fp12 &o) { s = s.add(o.s); return *this; }
    bool operator==(const Fp12 &o) const { return s.eq(o.s); }
    bool operator!=(const Fp12 &o) const { return !s.eq(o.s); }
};
inline void opt_atePairing(Fp12 &f, const Ec2 &q, const Ec1 &p) { bn_ideal::work().pairings += 1; f.s = q.s.mul(p.s); }
}
