// Field arithmetic, conversions and polynomials against GMP.
#include "fe.h"
#include "linear_gkr/polynomial.h"
#include "fresh.h"
using circ::md; using circ::P; using fe::F; using fe::get; using fe::put;
typedef pbt::Rng Rng; typedef pbt::Result Result;
static const mpz_class ONE = 1;
// interesting canonical values: limb boundaries, neighbours of the prime, sparse and dense words
static mpz_class val(Rng &r) {
  mpz_class z;
  switch (r.weighted({4, 3, 3, 3, 3, 2})) {
    case 0: return fe::rnd(r);
    case 1: z = (long)r.range(0, 3); if (r.chance(1, 2)) z = P() - 1 - z; return z;
    case 2: { int s[] = {31, 32, 63, 64, 65, 95, 96, 127, 128, 129, 191, 192, 193, 252, 253}; z = ONE << s[r.range(0, 14)]; z += (long)r.range(-2, 2); return md(z); }
    case 3: { z = 0; for (int i = 0; i < 8; ++i) { z <<= 32; int k = (int)r.range(0, 3); z += k == 0 ? 0ul : k == 1 ? 0xfffffffful : k == 2 ? (unsigned long)(r.next() >> 32) : 1ul; } return md(z); }
    case 4: { z = 0; for (int i = 0; i < 4; ++i) { z <<= 64; int k = (int)r.range(0, 3); z += k == 0 ? 0ul : k == 1 ? ~0ul : k == 2 ? (unsigned long)r.next() : (1ul << 63); } return md(z); }
    default: { mpz_class h = (P() - 1) / 2; z = h + (long)r.range(-3, 3); return z; }
  }
}
static std::string canon(const F &f) { mpz_class z = get(f); if (z >= P()) return "non-canonical value " + z.get_str(); return ""; }
// ---- field_arith: a random straight-line program over registers
// document: "reg v" lines then "op d a b" lines
static std::string gen_arith(Rng &r, long) {
  std::string o; int n = (int)r.range(2, 6); for (int i = 0; i < n; ++i) o += "reg " + val(r).get_str() + "\n";
  if (r.chance(1, 6)) { mpz_class x = val(r); o += "reg " + x.get_str() + "\nreg " + md(-x).get_str() + "\n"; n += 2; }
  int k = (int)r.range(1, 40); const char *ops = "+-*=sf"; for (int i = 0; i < k; ++i) o += std::string("op ") + ops[r.weighted({5, 5, 6, 2, 1, 2})] + " " + std::to_string(r.range(0, n - 1)) + " " + std::to_string(r.range(0, n - 1)) + " " + std::to_string(r.range(0, n - 1)) + "\n";
  return o;
}
static Result check_arith(const std::string &doc) {
  Result res; std::vector<F> f; std::vector<mpz_class> z; std::istringstream is(doc); std::string w; int nops = 0;
  while (is >> w) {
    if (w == "reg") { std::string v; is >> v; z.push_back(mpz_class(v)); f.push_back(put(z.back())); }
    else if (w == "op") {
      std::string o; int d, a, b; is >> o >> d >> a >> b; int n = (int)f.size(); if (!n) continue; d %= n; a %= n; b %= n; ++nops; res.label("op_" + o);
      switch (o[0]) {
        case '+': f[d] = f[a] + f[b]; z[d] = md(z[a] + z[b]); break;
        case '-': f[d] = f[a] - f[b]; z[d] = md(z[a] - z[b]); break;
        case '*': f[d] = f[a] * f[b]; z[d] = md(z[a] * z[b]); break;
        case 's': f[d] = f[a]; z[d] = z[a]; break;
        case '=': { bool e = f[a] == f[b], ne = f[a] != f[b]; if (e != (z[a] == z[b]) || ne == e) res.fail("equality of " + z[a].get_str() + " and " + z[b].get_str() + " reported wrongly"); break; }
        case 'f': { // fused a*b + c*d, reduced once, as the protocols use it
          F t; t.value = (f[a].value * f[b].value + f[b].value * f[d].value) % prime_field::mod; mpz_class e = md(z[a] * z[b] + z[b] * z[d]); f[d] = t; z[d] = e; break; }
      }
      if (get(f[d]) != z[d]) { res.fail("operation " + o + " on registers " + std::to_string(a) + "," + std::to_string(b) + " gave " + get(f[d]).get_str() + " instead of " + z[d].get_str()); break; }
      F m = f[a].mul_non_mod(f[b]); if (get(m) != z[a] * z[b]) { res.fail("unreduced product of " + z[a].get_str() + " and " + z[b].get_str() + " is " + get(m).get_str()); break; }
      std::string c = canon(f[d]); if (!c.empty()) { res.fail(c); break; }
    }
  }
  res.nontrivial = nops >= 3; return res;
}
static std::vector<std::string> shrink_lines(const std::string &s) {
  std::vector<std::string> L, out; std::istringstream is(s); std::string l; while (std::getline(is, l)) L.push_back(l);
  auto join = [&](const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x + "\n"; return o; };
  for (size_t k = L.size() / 2; k >= 1; k /= 2) for (size_t i = 0; i + k <= L.size(); i += k) { auto m = L; m.erase(m.begin() + i, m.begin() + i + k); out.push_back(join(m)); }
  for (size_t i = 0; i < L.size(); ++i) { size_t p = L[i].find_last_of(' '); if (p == std::string::npos) continue; std::string v = L[i].substr(p + 1); if (v.size() > 1 && L[i].compare(0, 2, "op") != 0) { for (const char *t : {"0", "1", "2"}) { auto m = L; m[i] = L[i].substr(0, p + 1) + t; out.push_back(join(m)); } auto m = L; try { mpz_class h(v); h /= 2; m[i] = L[i].substr(0, p + 1) + h.get_str(); out.push_back(join(m)); } catch (...) {} } }
  return out;
}
// ---- field_conv
static std::string gen_conv(Rng &r, long) {
  std::string o = "v " + val(r).get_str() + "\n";
  static const std::vector<long long> E{0, 1, -1, 2, -2, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, -4294967296LL, 9223372036854775807LL, -9223372036854775807LL - 1, 65536, -65536};
  long long x = r.chance(1, 3) ? r.pick(E) : r.chance(1, 2) ? (long long)r.next() : r.range(-1000, 1000);
  o += "i " + std::to_string(x) + "\n";
  mpz_class w = val(r) * val(r) + (r.chance(1, 2) ? mpz_class(val(r) * val(r)) : mpz_class(0)); if (r.chance(1, 3)) { mpz_class q = val(r); w = q * P() + (long)r.range(-2, 2); if (w < 0) w = 0; }
  o += "w " + w.get_str() + "\n"; o += "s " + std::to_string(r.range(1, 1000000000)) + "\n"; return o;
}
static Result check_conv(const std::string &doc) {
  Result res; std::istringstream is(doc); std::string k, v; std::string last[256];
  while (is >> k >> v) {
    if (k == "v") {
      mpz_class z(v); F f = put(z); res.nontrivial = res.nontrivial || z > 1;
      mpz_class g = f.to_gmp_class(); if (g != z) res.fail("conversion of " + v + " to a big integer gives " + g.get_str());
      char *s = f.to_string(); for (int i = 0; i < 512; ++i) if (s[i] != (char)('0' + mpz_tstbit(z.get_mpz_t(), i))) { res.fail("bit " + std::to_string(i) + " of the text form of " + v + " is wrong"); break; }
      auto b = f.bit_stream(); if (b.size() != 256) res.fail("bit stream has " + std::to_string(b.size()) + " bits"); else for (int i = 0; i < 256; ++i) if ((int)b[i] != mpz_tstbit(z.get_mpz_t(), i)) { res.fail("bit " + std::to_string(i) + " of the bit stream of " + v + " is wrong"); break; }
      int bl = z == 0 ? 0 : (int)mpz_sizeinbase(z.get_mpz_t(), 2); if (f.bitLen() != bl) res.fail("bit length of " + v + " reported as " + std::to_string(f.bitLen()));
      std::string d = z.get_str(); F h; h.value = prime_field::u512b(d.c_str(), (int)d.size(), 10); if (get(h) != z) res.fail("decimal text " + d + " read as " + get(h).get_str());
      prime_field::u256b q(d.c_str(), (int)d.size(), 10); F e; e.value = prime_field::u512b(q); if (get(e) != z) res.fail("decimal text " + d + " read as " + get(e).get_str() + " (256 bit)");
      for (int i : {0, 1, 31, 63, 64, 65, 127, 128, 129, 192, 255}) if (q.testBit(i) != mpz_tstbit(z.get_mpz_t(), i)) res.fail("bit test " + std::to_string(i) + " of " + v + " is wrong");
    } else if (k == "i") {
      long long x = strtoll(v.c_str(), 0, 10); mpz_class z(v);
      F a(x); if (get(a) != md(z)) res.fail("integer " + v + " maps to " + get(a).get_str());
      int y = (int)x; F b(y); if (get(b) != md(mpz_class(y))) res.fail("int " + std::to_string(y) + " maps to " + get(b).get_str());
      unsigned long long u = (unsigned long long)x; F c(u); if (get(c) != mpz_class(std::to_string(u))) res.fail("unsigned " + std::to_string(u) + " maps to " + get(c).get_str());
      res.label(x < 0 ? "negative_integer" : "non_negative_integer");
    } else if (k == "w") {
      mpz_class w(v); F f = fe::put_raw(w); F g; g.value = f.value % prime_field::mod; if (get(g) != md(w)) res.fail("reduction of " + v + " gives " + get(g).get_str());
      int bl = w == 0 ? 0 : (int)mpz_sizeinbase(w.get_mpz_t(), 2); if (w < (mpz_class(1) << 512) && f.bitLen() != bl) res.fail("bit length of " + v + " reported as " + std::to_string(f.bitLen()));
      char *s = f.to_string(); for (int i = 0; i < 512; ++i) if (s[i] != (char)('0' + mpz_tstbit(w.get_mpz_t(), i))) { res.fail("bit " + std::to_string(i) + " of the text form of " + v + " is wrong"); break; }
      // comparison and unreduced sums and differences with values that differ in one limb
      for (int sh : {0, 63, 64, 127, 128, 191, 192, 255, 256, 319, 320, 383, 384, 447}) {
        mpz_class x = w + (mpz_class(1) << sh); if (x >= (mpz_class(1) << 511)) continue; F g2 = fe::put_raw(x), g3 = fe::put_raw(mpz_class(1) << sh), t;
        if (!(f.value < g2.value) || g2.value < f.value || !(g2.value > f.value) || f.value > g2.value || !(g2.value >= f.value) || f.value >= g2.value || !(f.value != g2.value)) { res.fail("comparison of " + v + " with itself plus 2^" + std::to_string(sh) + " is wrong"); break; }
        t.value = f.value + g3.value; if (get(t) != x) { res.fail(v + " plus 2^" + std::to_string(sh) + " gives " + get(t).get_str()); break; }
        t.value = g2.value - g3.value; if (get(t) != w) { res.fail(x.get_str() + " minus 2^" + std::to_string(sh) + " gives " + get(t).get_str()); break; }
      }
      if (f.value < f.value || f.value > f.value || !(f.value >= f.value) || f.value != f.value) res.fail("comparison of " + v + " with itself is wrong");
      if (mpz_sizeinbase(w.get_mpz_t(), 2) > 256) res.label("reduction_of_wide_value");
    } else if (k == "s") {
      srand((unsigned)atol(v.c_str())); std::set<std::string> seen; for (int i = 0; i < 8; ++i) { F f = prime_field::random(); if (get(f) >= P()) res.fail("random element is not reduced: " + get(f).get_str()); seen.insert(get(f).get_str()); }
      if (seen.size() < 8) res.fail("random elements repeat");
    }
  }
  return res;
}
// ---- polynomials: coefficients high to low
static mpz_class ev(const std::vector<mpz_class> &c, const mpz_class &x) { mpz_class s = 0; for (auto &k : c) s = md(s * x + k); return s; }
static std::string gen_poly(Rng &r, long) { std::string o; for (int i = 0; i < 14; ++i) o += "c " + (r.chance(1, 5) ? mpz_class(0) : val(r)).get_str() + "\n"; return o; }
static Result check_poly(const std::string &doc) {
  Result res; std::vector<mpz_class> z; std::istringstream is(doc); std::string k, v; while (is >> k >> v) z.push_back(md(mpz_class(v))); z.resize(14, 0);
  std::vector<F> f; for (auto &x : z) f.push_back(put(x)); std::vector<mpz_class> xs{z[12], z[13], 0, 1, 2, P() - 1};
  int nz = 0; for (auto &x : z) nz += x != 0; res.nontrivial = nz >= 6;
  auto c = [&](int i, int n) { return std::vector<mpz_class>(z.begin() + i, z.begin() + i + n); };
  linear_poly l1(f[0], f[1]), l2(f[2], f[3]), l3(f[4]); quadratic_poly q1(f[0], f[1], f[2]), q2(f[3], f[4], f[5]); cubic_poly c1(f[0], f[1], f[2], f[3]), c2(f[4], f[5], f[6], f[7]);
  quadruple_poly d1(f[0], f[1], f[2], f[3], f[4]), d2(f[5], f[6], f[7], f[8], f[9]); quintuple_poly e1(f[0], f[1], f[2], f[3], f[4], f[5]), e2(f[6], f[7], f[8], f[9], f[10], f[11]);
  for (auto &x : xs) {
    F X = put(x);
    auto ck = [&](const char *n, const F &got, const mpz_class &want) { if (get(got) != md(want)) res.fail(std::string(n) + " at " + x.get_str() + " gives " + get(got).get_str() + " instead of " + md(want).get_str()); };
    ck("linear value", l1.eval(X), ev(c(0, 2), x)); ck("constant value", l3.eval(X), z[4]);
    ck("quadratic value", q1.eval(X), ev(c(0, 3), x)); ck("cubic value", c1.eval(X), ev(c(0, 4), x)); ck("degree-4 value", d1.eval(X), ev(c(0, 5), x)); ck("degree-5 value", e1.eval(X), ev(c(0, 6), x));
    ck("linear sum", (l1 + l2).eval(X), ev(c(0, 2), x) + ev(c(2, 2), x)); ck("linear product", (l1 * l2).eval(X), ev(c(0, 2), x) * ev(c(2, 2), x)); ck("constant product", (l1 * l3).eval(X), ev(c(0, 2), x) * z[4]);
    ck("quadratic sum", (q1 + q2).eval(X), ev(c(0, 3), x) + ev(c(3, 3), x)); ck("quadratic-linear product", (q1 * l2).eval(X), ev(c(0, 3), x) * ev(c(2, 2), x));
    ck("cubic sum", (c1 + c2).eval(X), ev(c(0, 4), x) + ev(c(4, 4), x)); ck("degree-4 sum", (d1 + d2).eval(X), ev(c(0, 5), x) + ev(c(5, 5), x)); ck("degree-5 sum", (e1 + e2).eval(X), ev(c(0, 6), x) + ev(c(6, 6), x));
    ck("zero polynomial", linear_poly().eval(X) + quadratic_poly().eval(X) + cubic_poly().eval(X) + quadruple_poly().eval(X) + quintuple_poly().eval(X), 0);
  }
  return res;
}
// ---- field_random: each drawn element from bits of its own, enough of them, evenly spread
static std::string gen_random(Rng &r, long i) { return "seed " + std::to_string(r.range(1, 1000000000)) + "\nelements " + std::to_string(i % 10 == 9 ? 8192 : (int)r.range(2, 9)) + "\n"; }
static Result check_random(const std::string &doc) {
  Result res; std::istringstream is(doc); std::string w; long seed = 1, n = 2; is >> w >> seed >> w >> n; Rng q((uint64_t)seed); res.nontrivial = true;
  if (n <= 64) { fresh::judge([&]() { fresh::Vals v; for (long i = 0; i < n; ++i) v.push_back({"random element " + std::to_string(i), get(prime_field::random())}); return v; }, (uint64_t)seed, true, q, res); return res; }
  res.label("spread"); tape::start((uint64_t)seed); std::vector<std::vector<long>> h(6, std::vector<long>(61, 0)); long M = 61;
  for (long i = 0; i < n; ++i) { mpz_class z = get(prime_field::random()), t; if (z >= P()) { res.fail("random element is not reduced"); break; }
    t = z * M / P(); ++h[0][t.get_ui()]; t = z % M; ++h[1][t.get_ui()]; t = (z & 0x3fffffff) % M; ++h[2][t.get_ui()]; t = ((z >> 64) & 0x3fffffff) % M; ++h[3][t.get_ui()]; t = ((z >> 128) & 0x3fffffff) % M; ++h[4][t.get_ui()]; t = ((z >> 192) & 0x3fffffff) % M; ++h[5][t.get_ui()]; }
  tape::stop();
  for (int k = 0; k < 6 && res.ok; ++k) { double e = (double)n / M, x = 0; for (long c : h[k]) x += (c - e) * (c - e) / e; if (x > 165) res.fail("random elements are not evenly spread (view " + std::to_string(k) + ", chi square " + std::to_string(x) + " with 60 degrees of freedom)"); }
  return res;
}
static std::vector<std::string> shrink_random(const std::string &s) { std::istringstream is(s); std::string w; long seed, n; is >> w >> seed >> w >> n; std::vector<std::string> o; for (long k : {2L, n / 2, n - 1}) if (k >= 1 && k < n) o.push_back("seed " + std::to_string(seed) + "\nelements " + std::to_string(k) + "\n"); return o; }
int main(int argc, char **argv) {
  fe::init(); std::vector<pbt::Mode> m;
  m.push_back({"field_arith", "a straight-line program of at least three operations over limb-boundary, near-prime, sparse and random values", gen_arith, check_arith, shrink_lines});
  m.push_back({"field_conv", "the converted value is at least 2", gen_conv, check_conv, shrink_lines});
  m.push_back({"field_poly", "at least six non-zero coefficients or points", gen_poly, check_poly, shrink_lines});
  m.push_back({"field_random", "always: every bit of every draw is varied, or 8192 elements are counted in 61 classes six ways", gen_random, check_random, shrink_random});
  return pbt::main_(argc, argv, m);
}
