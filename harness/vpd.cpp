// Polynomial commitments of the zero-knowledge program (src/VPD/{inputvpd,vpdR,vpd_test}.cpp) on an ideal bilinear group:
// completeness, the opened value against direct evaluation, rejection of anything altered, fresh blinding.
#include <iostream>
#include "circ.h"
#include "fresh.h"
#include <unistd.h>
#include "VPD/input_vpd.h"
#include "VPD/vpd_test.h"
#include "VPD/vpdR.h"
namespace vh {
using circ::md; using std::string; using std::vector;
typedef vector<mpz_class> Vz;
// which: 0 input_vpd (2^d values at the corners of the cube + linear mask), 1 vpdR (two variables), 2 vpd_test (mask polynomial)
struct Op { int kind; long a, b; mpz_class d; };
struct Case { int which = 0, d = 1; long seed = 1; Vz coef, c2; vector<Vz> pts; Vz Zs; vector<Op> ops; };
static size_t ncoef(int which, int d) { return which == 0 ? (size_t)1 << d : which == 1 ? 6 : 2 * (size_t)d + 7; }
static string ser(const Case &c) {
  std::ostringstream o; o << "vpd " << c.which << " d " << c.d << " seed " << c.seed << "\ncoef"; for (auto &x : c.coef) o << " " << x; o << "\nmask " << c.c2[0] << " " << c.c2[1] << "\npoints " << c.pts.size() << "\n";
  for (size_t i = 0; i < c.pts.size(); ++i) { for (auto &x : c.pts[i]) o << x << " "; o << "Z " << c.Zs[i] << "\n"; }
  o << "ops " << c.ops.size() << "\n"; for (auto &p : c.ops) o << p.kind << " " << p.a << " " << p.b << " " << p.d << "\n"; return o.str();
}
static Case deser(const string &s) {
  Case c; std::istringstream i(s); string w; i >> w >> c.which >> w >> c.d >> w >> c.seed >> w; c.coef.resize(ncoef(c.which, c.d)); for (auto &x : c.coef) i >> x; c.c2.resize(2); i >> w >> c.c2[0] >> c.c2[1];
  size_t n = 0; i >> w >> n; c.pts.assign(n, Vz(c.d)); c.Zs.resize(n); for (size_t k = 0; k < n; ++k) { for (auto &x : c.pts[k]) i >> x; i >> w >> c.Zs[k]; }
  i >> w >> n; c.ops.resize(n); for (auto &p : c.ops) i >> p.kind >> p.a >> p.b >> p.d; return c;
}
static mpz_class ref(const Case &c, const Vz &r, const mpz_class &Z) {
  if (c.which == 0) {
    mpz_class s = 0;
    Vz t = c.coef; for (int b = c.d - 1; b >= 0; --b) { size_t h = (size_t)1 << b; for (size_t j = 0; j < h; ++j) t[j] = md(t[j] + r[b] * (t[j + h] - t[j])); }
    s = t[0] + Z * (c.c2[0] + c.c2[1] * r[c.d - 1]); return md(s);
  }
  if (c.which == 1) { const mpz_class &z = r[0], &w = r[1]; return md(c.coef[0] + c.coef[1] * z + c.coef[2] * z * z + c.coef[3] * w + c.coef[4] * w * w + c.coef[5] * z * w); }
  mpz_class s = c.coef[2 * c.d]; for (int i = 0; i < c.d; ++i) s += md(c.coef[2 * i] * r[i]) * r[i] + c.coef[2 * i + 1] * r[i];
  for (int k = 0; k < 2; ++k) { const mpz_class &x = r[k ? c.d - 2 : c.d / 2 - 1]; mpz_class x3 = md(md(x * x) * x), x4 = md(x3 * x), x5 = md(x4 * x); s += c.coef[2 * c.d + 1 + 3 * k] * x5 + c.coef[2 * c.d + 2 + 3 * k] * x4 + c.coef[2 * c.d + 3 + 3 * k] * x3; }
  return md(s);
}
struct Com { bn::Ec1 g, ga, g2, g2a; mpz_class rf, rf2; Vz in, in2; };
struct Open { mpz_class ans; vector<bn::Ec1> w, wa; };
static Com commit(const Case &c) {
  Com m; m.in = c.coef; m.in2 = c.c2;
  if (c.which == 0) { m.in.push_back(0); auto p = input_vpd::commit(m.g, m.ga, m.g2, m.g2a, m.in, m.in2); m.rf = p.first; m.rf2 = p.second; }
  else if (c.which == 1) m.rf = vpdR::commit(m.g, m.ga, m.in);
  else m.rf = vpd_test::commit(m.g, m.ga, m.in);
  return m;
}
static bool check_commit(const Case &c, const Com &m) { return c.which == 0 ? input_vpd::check_commit(m.g, m.ga, m.g2, m.g2a) : c.which == 1 ? vpdR::check_commit(m.g, m.ga) : vpd_test::check_commit(m.g, m.ga); }
static Open prove(const Case &c, Com &m, const Vz &r, const mpz_class &Z) {
  Open o;
  if (c.which == 0) input_vpd::prove(r, o.ans, m.in, m.in2, o.w, o.wa, m.rf, m.rf2, Z);
  else if (c.which == 1) vpdR::prove(r, o.ans, m.in, o.w, o.wa, m.rf);
  else vpd_test::prove(r, o.ans, m.in, o.w, o.wa, m.rf);
  return o;
}
static bool verify(const Case &c, const Com &m, const Vz &r, const mpz_class &Z, Open o) {
  if (c.which == 0) return input_vpd::verify(r, m.g, m.g2, Z, o.ans, o.w, o.wa);
  if (c.which == 1) return vpdR::verify(r, m.g, o.ans, o.w, o.wa);
  return vpd_test::verify(r, m.g, o.ans, o.w, o.wa);
}
static bn::Ec1 gexp(const mpz_class &e) { return bn::Ec1(bn_ideal::G<1>(bn_ideal::S::of(e))); }
static pbt::Result check(const string &text) {
  pbt::Result res; Case c = deser(text); static const char *nm[] = {"input", "maskR", "maskpoly"}; string id = nm[c.which];
  std::cout.setstate(std::ios::failbit); srand((unsigned)c.seed);
  if (c.which == 0) { input_vpd::environment_init(); input_vpd::KeyGen(c.d); } else if (c.which == 1) { vpdR::environment_init(); vpdR::KeyGen(c.d); } else { vpd_test::environment_init(); vpd_test::KeyGen(c.d); }
  Com m = commit(c), m2 = commit(c);
  res.nontrivial = true; res.label(id); bool zero = true; for (auto &x : c.coef) zero &= x == 0; if (zero) { res.label("zero polynomial"); }
  if (!check_commit(c, m) || !check_commit(c, m2)) res.fail(id + ": an honest commitment is not accepted");
  if (m.g == m2.g || (c.which == 0 && m.g2 == m2.g2)) res.fail(id + ": committing twice to one polynomial gives the same commitment");
  vector<Open> os;
  for (size_t k = 0; k < c.pts.size(); ++k) {
    Open o = prove(c, m, c.pts[k], c.Zs[k]), p = prove(c, m, c.pts[k], c.Zs[k]), q = prove(c, m2, c.pts[k], c.Zs[k]);
    mpz_class want = ref(c, c.pts[k], c.Zs[k]);
    for (const Open *x : {&o, &p, &q}) if (md(x->ans) != want) { res.fail(id + ": opened value is not the polynomial at the point (point " + std::to_string(k) + ")"); return res; }
    if (!verify(c, m, c.pts[k], c.Zs[k], o) || !verify(c, m, c.pts[k], c.Zs[k], p) || !verify(c, m2, c.pts[k], c.Zs[k], q)) { res.fail(id + ": an honest opening is rejected (point " + std::to_string(k) + ")"); return res; }
    if (o.w.size() != (size_t)c.d + 1 || o.wa.size() != (size_t)c.d + 1) { res.fail(id + ": wrong number of witnesses"); return res; }
    for (size_t i = 0; i < o.w.size(); ++i) if (o.w[i] == p.w[i]) res.fail(id + ": two openings at one point share witness " + std::to_string(i) + " (not blinded)");
    if (verify(c, m2, c.pts[k], c.Zs[k], o)) res.fail(id + ": an opening of one commitment is accepted for another");
    os.push_back(o);
  }
  for (size_t x = 0; x < c.ops.size() && res.ok && !os.empty(); ++x) {
    const Op &p = c.ops[x]; size_t k = (size_t)p.b % os.size(); Com n = m; Open o = os[k]; Vz r = c.pts[k]; mpz_class Z = c.Zs[k]; size_t wi = (size_t)p.a % o.w.size(); string what; bool cc = false;
    switch (p.kind) {
    case 0: o.ans = md(o.ans + p.d); what = "the value"; break;
    case 1: n.g += gexp(p.d); what = "the digest"; break;
    case 2: n.g += gexp(p.d); cc = true; what = "the digest (commitment check)"; break;
    case 3: n.ga += gexp(p.d); cc = true; what = "the second digest (commitment check)"; break;
    case 4: if (c.which) continue; n.g2 += gexp(p.d); cc = p.a & 1; if (!cc && Z == 0) continue; what = "the mask digest"; break;
    case 5: if (c.which) continue; n.g2a += gexp(p.d); cc = true; what = "the second mask digest"; break;
    case 6: o.w[wi] += gexp(p.d); what = "witness " + std::to_string(wi); break;
    case 7: o.wa[wi] += gexp(p.d); what = "second witness " + std::to_string(wi); break;
    case 8: { mpz_class f = md(p.d + 1); if (f == 1) continue; mie::Vuint v(f.get_str()); o.w[wi] = o.w[wi] * v; o.wa[wi] = o.wa[wi] * v; what = "witness pair " + std::to_string(wi); break; }
    case 9: { size_t q = (size_t)p.a % r.size(); r[q] = md(r[q] + p.d); what = "coordinate " + std::to_string(q) + " of the point"; break; }
    case 10: if (c.which) continue; Z = md(Z + p.d); what = "the mask factor"; break;
    case 11: { size_t q = (size_t)(p.a + 1 + p.a / 7) % o.w.size(); if (q == wi) continue; std::swap(o.w[q], o.w[wi]); std::swap(o.wa[q], o.wa[wi]); what = "the order of witnesses " + std::to_string(wi) + " and " + std::to_string(q); break; }
    case 12: { Case c3 = c; size_t q = (size_t)p.a % c3.coef.size(); c3.coef[q] = md(c3.coef[q] + p.d); if (ref(c3, r, Z) == ref(c, r, Z)) continue; n = commit(c3); what = "coefficient " + std::to_string(q) + " of the committed polynomial"; break; }
    case 13: { size_t q = (k + 1 + (size_t)p.a % os.size()) % os.size(); if (c.pts[q] == r && (c.which || c.Zs[q] == Z)) continue; o = os[q]; what = "the opening (that of another point)"; break; }
    case 14: { size_t q = (k + 1 + (size_t)p.a % os.size()) % os.size(); if (md(os[q].ans - o.ans) == 0) continue; o.ans = os[q].ans; what = "the value (that of another point)"; break; }
    default: continue;
    }
    res.label("altered:" + std::to_string(p.kind));
    if (cc ? check_commit(c, n) : verify(c, n, r, Z, o)) res.fail(id + ": accepted although altered: " + what);
  }
  return res;
}
static mpz_class val(pbt::Rng &r) {
  switch (r.range(0, 9)) { case 0: return 0; case 1: return 1; case 2: return circ::P() - 1; case 3: { mpz_class x = 1; return md(x << (unsigned)r.range(0, 253)); } case 4: { mpz_class x = 1; return md((x << (unsigned)r.range(0, 254)) - 1); } case 5: return (long)r.range(2, 1000);
  default: { mpz_class z = 0; for (int i = 0; i < 5; ++i) { z <<= 64; z += (unsigned long)r.next(); } return md(z); } }
}
static string gen(pbt::Rng &r, long i) {
  Case c; c.which = r.weighted({4, 2, 5}); c.seed = (long)r.range(1, 1000000000);
  c.d = c.which == 0 ? (int)r.range(1, i % 50 == 7 ? 10 : 5) : c.which == 1 ? 2 : (int)r.range(3, i % 20 == 7 ? 31 : 9);
  int dens = (int)r.range(1, 4); c.coef.resize(ncoef(c.which, c.d)); for (auto &x : c.coef) x = r.chance(dens, 4) ? val(r) : mpz_class(0); c.c2 = {val(r), val(r)};
  int np = (int)r.range(1, 3); for (int k = 0; k < np; ++k) { Vz p; for (int j = 0; j < c.d; ++j) p.push_back(val(r)); c.pts.push_back(p); c.Zs.push_back(val(r)); }
  int no = (int)r.range(2, 14); for (int k = 0; k < no; ++k) { Op o; o.kind = (int)r.range(0, 14); o.a = (long)r.range(0, 1 << 16); o.b = (long)r.range(0, 100); do o.d = val(r); while (o.d == 0); c.ops.push_back(o); }
  return ser(c);
}
static vector<string> shrink(const string &s) {
  Case k = deser(s); vector<string> out;
  if (k.ops.size() > 1) { Case n = k; n.ops.resize(k.ops.size() / 2); out.push_back(ser(n)); }
  for (size_t i = 0; i < k.ops.size(); ++i) { Case n = k; n.ops.erase(n.ops.begin() + i); out.push_back(ser(n)); }
  for (size_t i = 0; i < k.pts.size() && k.pts.size() > 1; ++i) { Case n = k; n.pts.erase(n.pts.begin() + i); n.Zs.erase(n.Zs.begin() + i); out.push_back(ser(n)); }
  if (k.which == 0 && k.d > 1) { Case n = k; n.d--; n.coef.resize(ncoef(0, n.d)); for (auto &p : n.pts) p.pop_back(); out.push_back(ser(n)); }
  if (k.which == 2 && k.d > 3) { Case n = k; n.d--; n.coef.erase(n.coef.begin(), n.coef.begin() + 2); for (auto &p : n.pts) p.erase(p.begin()); out.push_back(ser(n)); }
  auto simpler = [&](Case &n, mpz_class &x) { if (x == 0) return; mpz_class o = x; x = 0; out.push_back(ser(n)); if (o != 1) { x = 1; out.push_back(ser(n)); } x = o; };
  { Case n = k; for (auto &x : n.coef) simpler(n, x); for (auto &p : n.pts) for (auto &x : p) simpler(n, x); for (auto &x : n.Zs) simpler(n, x); for (auto &x : n.c2) simpler(n, x); for (auto &o : n.ops) if (o.d > 1) { mpz_class t = o.d; o.d = 1; out.push_back(ser(n)); o.d = t; } }
  return out;
}
// What the steps cost, in group operations and pairings of the ideal group: setting up, committing and opening are linear in the size of the polynomial, checking is affine in its number of variables.
struct Price { double setup, commit, prove, verify, pair; };
static Price price(int which, int d, pbt::Rng &r) {
  Case c; c.which = which; c.d = d; c.coef.resize(ncoef(which, d)); auto full = [&]() { mpz_class z = 0; for (int i = 0; i < 5; ++i) { z <<= 64; z += (unsigned long)r.next(); } return md(z); };
  for (auto &x : c.coef) x = full(); c.c2 = {full(), full()}; Vz p; for (int i = 0; i < d; ++i) p.push_back(full()); mpz_class Z = full(); auto &w = bn_ideal::work(); Price q;
  w.group = w.pairings = 0; if (which == 0) { input_vpd::environment_init(); input_vpd::KeyGen(d); } else { vpd_test::environment_init(); vpd_test::KeyGen(d); } q.setup = w.group;
  w.group = w.pairings = 0; Com m = commit(c); q.commit = w.group; w.group = w.pairings = 0; Open o = prove(c, m, p, Z); q.prove = w.group; w.group = w.pairings = 0; bool ok = verify(c, m, p, Z, o) && check_commit(c, m); q.verify = w.group; q.pair = w.pairings; if (!ok) q.pair = -1; return q;
}
static string gen_cost(pbt::Rng &r, long) { int which = r.chance(1, 4) ? 2 : 0, d = which ? (int)r.range(4, 13) : (int)r.range(4, 7); return std::to_string(which) + " " + std::to_string(d) + " " + std::to_string(r.range(1, 1000000000)) + "\n"; }
static pbt::Result check_cost(const string &doc) {
  pbt::Result res; int which = 0, d = 5; long seed = 1; sscanf(doc.c_str(), "%d %d %ld", &which, &d, &seed); std::cout.setstate(std::ios::failbit); srand((unsigned)seed); pbt::Rng r((uint64_t)seed);
  res.nontrivial = true; res.label((which ? "mask polynomial of " : "input of ") + std::to_string(d) + " variables"); int D = which ? 4 * d : d + 3; const int ds[4] = {d - 1, d, D - 1, D}; Price p[4]; for (int i = 0; i < 4; ++i) { p[i] = price(which, ds[i], r); if (p[i].pair < 0) res.fail("an honest opening is rejected"); }
  auto grow = [&](const char *what, double Price::*m, double f) { double x = p[1].*m - p[0].*m, y = p[3].*m - p[2].*m; if (getenv("COST_SHOW")) { FILE *o = fopen(getenv("COST_SHOW"), "a"); fprintf(o, "COST %s%d %f %f %f\n", strrchr(what, ' ') + 1, which, x, y, (y - 1500) / (x + 1e-9) / f); fclose(o); }
    if (y > f * x * 1.1 + 1500) res.fail(string(what) + (which ? " of the mask polynomial: " : " of the input: ") + std::to_string(d) + " instead of " + std::to_string(d - 1) + " variables cost " + std::to_string((long)x) + " group operations more, " + std::to_string(D) + " instead of " + std::to_string(D - 1) + " cost " + std::to_string((long)y) + " more"); };
  double f = which ? 1 : 8; grow("the setup", &Price::setup, f); grow("the commitment", &Price::commit, f); grow("the opening", &Price::prove, f); grow("the check", &Price::verify, 1);
  if ((p[3].pair - p[2].pair) != p[1].pair - p[0].pair || p[3].pair - p[1].pair != (D - d) * (p[1].pair - p[0].pair)) res.fail("the number of pairings of the check does not grow by a fixed number per variable"); return res;
}
// blinding factors: wide, never the same, and the randomness behind them has at least 250 bits (mask polynomials: 31, a known finding)
static pbt::Result check_blind(const string &text) {
  pbt::Result res; Case c = deser(text); static const char *nm[] = {"input", "maskR", "maskpoly"}; string id = nm[c.which]; res.nontrivial = true; res.label(id); std::cout.setstate(std::ios::failbit); pbt::Rng q((uint64_t)c.seed);
  fresh::judge([&]() {
    fresh::Vals v; if (c.which == 0) { input_vpd::environment_init(); input_vpd::KeyGen(c.d); } else if (c.which == 1) { vpdR::environment_init(); vpdR::KeyGen(c.d); } else { vpd_test::environment_init(); vpd_test::KeyGen(c.d); }
    for (int k = 0; k < 3; ++k) { Com m = commit(c); string w = id + ": blinding factor " + std::to_string(k); v.push_back({w, md(m.rf)}); if (c.which == 0) v.push_back({w + " of the mask", md(m.rf2)}); }
    // the trapdoors, read off commitments to single coefficients
    auto lg = [](const bn::Ec1 &x) { return md(x.s.mpz()); }; auto coefat = [&](size_t k) { Case z = c; for (auto &x : z.coef) x = 0; z.c2 = {0, 0}; if (k != (size_t)-1) z.coef[k] = 1; return commit(z); };
    Com z = coefat((size_t)-1); if (md(z.rf) == 0 || lg(z.g) == 0) { res.fail(id + ": a blinding factor is zero"); return v; } mpz_class sf = md(lg(z.g) * circ::inv(md(z.rf)));
    v.push_back({id + ": the trapdoor of the blinding factors", sf}); v.push_back({id + ": the trapdoor of the second digest", md(lg(z.ga) * circ::inv(lg(z.g)))});
    for (int i = 0; i < c.d && i < 8; ++i) { Com u = coefat(c.which == 0 ? (size_t)1 << i : c.which == 1 ? (i ? 3 : 1) : 2 * (size_t)i + 1); v.push_back({id + ": the trapdoor of variable " + std::to_string(i), md(lg(u.g) - md(sf * u.rf))}); }
    // two openings of one commitment at one point differ in the blinding of their witnesses only
    Com m = commit(c); Open o = prove(c, m, c.pts[0], c.Zs[0]), q2 = prove(c, m, c.pts[0], c.Zs[0]); for (size_t i = 0; i < o.w.size(); ++i) v.push_back({id + ": the blinding of witness " + std::to_string(i), md(lg(o.w[i]) - lg(q2.w[i]))});
    return v; }, (uint64_t)c.seed, true, q, res, true, 12, c.which == 2 ? 31 : 250);      // known finding maskpoly_seed: the commitment of mask polynomials is seeded with one rand()
  return res;
}
}  // namespace vh
int main(int argc, char **argv) {
  vector<pbt::Mode> m; m.push_back({"vpd", "every case commits twice, opens at least one point three times and alters at least one message", vh::gen, vh::check, vh::shrink}); m.push_back({"vpd_cost", "dense polynomials of four numbers of variables", vh::gen_cost, vh::check_cost, nullptr}); m.push_back({"vpd_blind", "always: three commitments to one polynomial", vh::gen, vh::check_blind, vh::shrink}); return pbt::main_(argc, argv, m);
}
