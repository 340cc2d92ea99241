// Random values that leave the system (challenges, masks): wide, unrelated to one another, each from draws of its own.
// rand() is replaced by a tape that a case chooses, so that the effect of changing one draw can be observed.
#pragma once
#include <set>
#include <functional>
#include "circ.h"
namespace tape {
static bool on = false; static uint64_t seed = 1; static size_t n = 0, flip_at = (size_t)-1; static unsigned flip = 0;
static void start(uint64_t s, size_t at = (size_t)-1, unsigned mask = 0) { on = true; seed = s; n = 0; flip_at = at; flip = mask; }
static void stop() { on = false; }
}
extern "C" int rand(void) noexcept {
  if (!tape::on) return (int)(random() & 0x7fffffff);
  size_t i = tape::n++; uint64_t x = tape::seed + (uint64_t)i * 0x9e3779b97f4a7c15ull; x = pbt::Rng::mix(x);
  unsigned v = (unsigned)(x >> 20) & 0x7fffffffu; if (i == tape::flip_at) v ^= tape::flip; return (int)v;
}
namespace fresh {
struct Val { std::string name; mpz_class z; };
typedef std::vector<Val> Vals;
// no narrow, repeated or obviously related values
static bool plain(const Vals &v, pbt::Result &r) {
  using circ::md; mpz_class lim = mpz_class(1) << 160, low = (mpz_class(1) << 64) - 1; const mpz_class &P = circ::P();
  for (auto &x : v) {
    if (x.z < 0 || x.z >= P) { r.fail(x.name + " is not a reduced field element"); return false; }
    if (x.z < lim || P - x.z < lim) { r.fail(x.name + " is drawn from a narrow range: " + x.z.get_str()); return false; }
    mpz_class l = x.z & low; if (l == 0) { r.fail(x.name + " is drawn from a sparse range: " + x.z.get_str()); return false; }
  }
  std::map<mpz_class, std::string> seen;
  for (auto &x : v) { auto k = seen.find(x.z); if (k != seen.end()) { r.fail(x.name + " equals " + k->second); return false; } seen[x.z] = x.name; }
  for (auto &x : v) for (auto &y : {md(-x.z), md(1 - x.z), md(x.z + 1), md(2 * x.z), md(x.z * x.z), circ::inv(x.z)}) { auto k = seen.find(y); if (k != seen.end()) { r.fail(k->second + " is a simple function of " + x.name); return false; } }
  return true;
}
// run() gives the values of one session under the current tape
static void judge(const std::function<Vals()> &run, uint64_t seed, bool full, pbt::Rng &rng, pbt::Result &r, bool shared = false, int sample = 12, long least = 250) {   // shared: all values may come from one seed; least: random bits behind a value
  tape::start(seed); Vals a = run(); size_t total = tape::n; r.label(a.size() < 10 ? "values_under_10" : a.size() < 40 ? "values_10_to_39" : "values_40_or_more");
  if (!plain(a, r)) { tape::stop(); return; }
  { tape::start(seed ^ 0x5bd1e995u); Vals b = run(); std::set<mpz_class> s; for (auto &x : a) s.insert(x.z); for (auto &x : b) if (s.count(x.z)) { r.fail(x.name + " also occurs in a session with other randomness"); tape::stop(); return; } }
  if (!total) { r.label("another_source_of_randomness"); tape::stop(); return; }   // nothing to vary
  std::vector<long> bits(a.size(), 0); std::vector<size_t> at; if (full) for (size_t i = 0; i < total; ++i) at.push_back(i); else for (int i = 0; i < sample; ++i) at.push_back((size_t)rng.range(0, (long long)total - 1));
  for (size_t i : at) {
    int single = 0, multi = 0; long who = -1, eff = 0; std::string names;
    for (int b : {30, 15, 7, 0}) {
      tape::start(seed, i, 1u << b); Vals c = run(); if (c.size() != a.size()) continue;
      int ch = 0; long w = -1; std::string nm; for (size_t k = 0; k < a.size(); ++k) if (a[k].z != c[k].z) { if (ch++ < 3) nm += (ch > 1 ? ", " : "") + a[k].name; w = (long)k; }
      if (shared) { if (ch && !eff) { eff = b + 1; who = 0; } continue; }
      if (ch == 1) { ++single; if (!eff) { eff = b + 1; who = w; } } else if (ch > 1) { ++multi; names = nm; }
    }
    if (multi >= 2 && !single) { r.fail("values are not drawn independently: one draw decides several (" + names + ")"); tape::stop(); return; }
    if (who >= 0) bits[who] += eff;
  }
  tape::stop();
  if (full) for (size_t k = 0; k < (shared ? 1 : a.size()); ++k) if (bits[k] < least) { r.fail(a[k].name + " depends on " + std::to_string(bits[k]) + " random bits only, the field has 254"); return; }
}
}  // namespace fresh
