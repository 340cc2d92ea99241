// The multilinear commitment benchmark (src/VPD/multivariate_test.cpp) on an ideal bilinear group: polynomials given by their values on the
// cube, in any number of variables up to that of the keys. Completeness, opened value against direct evaluation, rejection of alterations.
#include <iostream>
#include "circ.h"
#include "bn.h"
namespace mh {
using circ::md; using std::string; using std::vector;
typedef vector<mpz_class> Vz;
static const mpz_class &prime() { return circ::P(); }
}
#define main multilinear_main
#include SRC_ML
#undef main
#undef P
namespace mh {
struct Op { int kind; long a, b; mpz_class d; };
struct Case { int D = 1, d = 1; long seed = 1; Vz in; vector<Vz> pts; vector<Op> ops; };
static string ser(const Case &c) {
  std::ostringstream o; o << "ml " << c.D << " " << c.d << " seed " << c.seed << "\nin"; for (auto &x : c.in) o << " " << x;
  o << "\npoints " << c.pts.size() << "\n"; for (auto &p : c.pts) { for (auto &x : p) o << x << " "; o << "\n"; }
  o << "ops " << c.ops.size() << "\n"; for (auto &p : c.ops) o << p.kind << " " << p.a << " " << p.b << " " << p.d << "\n"; return o.str();
}
static Case deser(const string &s) {
  Case c; std::istringstream i(s); string w; i >> w >> c.D >> c.d >> w >> c.seed >> w; c.in.resize((size_t)1 << c.d); for (auto &x : c.in) i >> x; size_t n = 0;
  i >> w >> n; c.pts.assign(n, Vz(c.d)); for (auto &p : c.pts) for (auto &x : p) i >> x; i >> w >> n; c.ops.resize(n); for (auto &p : c.ops) i >> p.kind >> p.a >> p.b >> p.d; return c;
}
static mpz_class ref(const Vz &in, const Vz &r) { Vz t = in; for (size_t b = 0; b < r.size(); ++b) { size_t h = t.size() / 2; for (size_t j = 0; j < h; ++j) t[j] = md(t[2 * j] + r[b] * (t[2 * j + 1] - t[2 * j])); t.resize(h); } return t[0]; }
static bn::Ec1 gexp(const mpz_class &e) { return bn::Ec1(bn_ideal::G<1>(bn_ideal::S::of(e))); }
static void setup(const Case &c) {
  static bool once = false; if (!once) { gmp_randinit_default(r_state); once = true; } gmp_randseed_ui(r_state, (unsigned long)c.seed); p = prime(); g1 = gexp(1); g2 = bn::Ec2(bn_ideal::G<2>(bn_ideal::S::of(1LL)));
  keygen(c.D);
}
struct Open { mpz_class ans; vector<bn::Ec1> w, wa; };
static pbt::Result check(const string &text) {
  pbt::Result res; Case c = deser(text); std::cout.setstate(std::ios::failbit); setup(c); res.nontrivial = true; res.label("variables_" + std::to_string(c.d)); if (c.d < c.D) res.label("fewer_variables_than_the_keys");
  bn::Ec1 g, ga; Vz in = c.in; commit(g, ga, in); vector<Open> os;
  if (!check_commit(g, ga)) { res.fail("multilinear: an honest commitment is not accepted"); return res; }
  for (auto &r : c.pts) {
    Open o; prove(r, o.ans, in, o.w, o.wa); if (in != c.in) { res.fail("multilinear: the committed values were changed"); return res; }
    if (o.ans != ref(c.in, r)) { res.fail("multilinear: the opened value is not the polynomial at the point"); return res; }
    if (o.w.size() != r.size() || !verify(r, g, o.ans, o.w, o.wa)) { res.fail("multilinear: an honest opening is rejected"); return res; }
    os.push_back(o);
  }
  for (auto &q : c.ops) {
    size_t k = (size_t)q.b % os.size(); Open o = os[k]; Vz r = c.pts[k]; bn::Ec1 h = g, ha = ga; size_t wi = (size_t)q.a % r.size(); bool cc = false; string what;
    switch (q.kind) {
    case 0: o.ans = md(o.ans + q.d); what = "the value"; break;
    case 1: h += gexp(q.d); what = "the digest"; break;
    case 2: h += gexp(q.d); cc = true; what = "the digest (commitment check)"; break;
    case 3: ha += gexp(q.d); cc = true; what = "the second digest (commitment check)"; break;
    case 4: o.w[wi] += gexp(q.d); what = "witness " + std::to_string(wi); break;
    case 5: if (!wi) continue; o.wa[wi] += gexp(q.d); what = "second witness " + std::to_string(wi); break;
    case 6: { r[wi] = md(r[wi] + q.d); if (ref(c.in, r) == o.ans) continue; what = "coordinate " + std::to_string(wi) + " of the point"; break; }
    case 7: { Case c3 = c; size_t j = (size_t)q.a % c3.in.size(); c3.in[j] = md(c3.in[j] + q.d); if (ref(c3.in, r) == o.ans) continue; Vz i3 = c3.in; commit(h, ha, i3); what = "value " + std::to_string(j) + " of the committed polynomial"; break; }
    case 8: { size_t j = (k + 1 + (size_t)q.a) % os.size(); if (os[j].ans == o.ans) continue; o.ans = os[j].ans; what = "the value (that of another point)"; break; }
    default: { size_t j = (k + 1 + (size_t)q.a) % os.size(); if (os[j].ans == ref(c.in, r)) continue; o = os[j]; what = "the opening (that of another point)"; }
    }
    res.label("altered:" + std::to_string(q.kind));
    if (cc ? check_commit(h, ha) : verify(r, h, o.ans, o.w, o.wa)) { res.fail("multilinear: accepted although altered: " + what); return res; }
  }
  return res;
}
static mpz_class val(pbt::Rng &r) {
  switch (r.range(0, 9)) { case 0: return 0; case 1: return 1; case 2: return prime() - 1; case 3: { mpz_class x = 1; return md(x << (unsigned)r.range(0, 253)); } case 4: { mpz_class x = 1; return md((x << (unsigned)r.range(0, 254)) - 1); } case 5: return (long)r.range(2, 1000);
  default: { mpz_class z = 0; for (int i = 0; i < 5; ++i) { z <<= 64; z += (unsigned long)r.next(); } return md(z); } }
}
static string gen(pbt::Rng &r, long i) {
  Case c; c.D = (int)r.range(1, i % 50 == 7 ? 9 : 5); c.d = r.chance(2, 3) ? c.D : (int)r.range(1, c.D); c.seed = (long)r.range(1, 1000000000);
  int dens = (int)r.range(1, 4); for (size_t j = 0; j < (size_t)1 << c.d; ++j) c.in.push_back(r.chance(dens, 4) ? val(r) : mpz_class(0));
  int np = (int)r.range(1, 3); for (int k = 0; k < np; ++k) { Vz q; for (int j = 0; j < c.d; ++j) q.push_back(val(r)); c.pts.push_back(q); }
  int no = (int)r.range(2, 14); for (int k = 0; k < no; ++k) { Op o; o.kind = (int)r.range(0, 9); o.a = (long)r.range(0, 1 << 16); o.b = (long)r.range(0, 100); do o.d = val(r); while (o.d == 0); c.ops.push_back(o); }
  return ser(c);
}
static vector<string> shrink(const string &s) {
  Case k = deser(s); vector<string> out;
  if (k.ops.size() > 0) { Case n = k; n.ops.resize(k.ops.size() / 2); out.push_back(ser(n)); }
  for (size_t i = 0; i < k.ops.size(); ++i) { Case n = k; n.ops.erase(n.ops.begin() + i); out.push_back(ser(n)); }
  for (size_t i = 0; i < k.pts.size() && k.pts.size() > 1; ++i) { Case n = k; n.pts.erase(n.pts.begin() + i); out.push_back(ser(n)); }
  if (k.d > 1) { Case n = k; n.d--; n.in.resize((size_t)1 << n.d); for (auto &q : n.pts) q.pop_back(); out.push_back(ser(n)); }
  if (k.D > k.d) { Case n = k; n.D--; out.push_back(ser(n)); }
  auto simpler = [&](Case &n, mpz_class &x) { if (x == 0) return; mpz_class o = x; x = 0; out.push_back(ser(n)); if (o != 1) { x = 1; out.push_back(ser(n)); } x = o; };
  { Case n = k; for (auto &x : n.in) simpler(n, x); for (auto &q : n.pts) for (auto &x : q) simpler(n, x); for (auto &o : n.ops) if (o.d > 1) { mpz_class t = o.d; o.d = 1; out.push_back(ser(n)); o.d = t; } }
  return out;
}
}  // namespace mh
int main(int argc, char **argv) { vector<pbt::Mode> m; m.push_back({"multilinear", "every case commits, opens at least one point and tries at least one alteration", mh::gen, mh::check, mh::shrink}); return pbt::main_(argc, argv, m); }
