// Circuit model shared by the harnesses: generator, text form, and an independent reference evaluator (GMP).
#pragma once
#include "pbt.h"
#include <gmpxx.h>

namespace circ {
using pbt::Rng;
static const char *P_STR = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
inline const mpz_class &P() { static mpz_class p(P_STR); return p; }
inline mpz_class md(const mpz_class &x) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), P().get_mpz_t()); return r; }
inline mpz_class inv(const mpz_class &x) { mpz_class r, y = md(x); mpz_invert(r.get_mpz_t(), y.get_mpz_t(), P().get_mpz_t()); return r; }

struct Gate { int ty; long long u, v; };
typedef std::vector<std::vector<Gate>> Layers;   // [0] = inputs (ty 2/3, u = value)

struct Case {                                     // everything a protocol case needs
  Layers L;
  long seed = 1;                                  // srand seed for challenges / masks
  std::map<std::string, long long> kv;            // further parameters (adversary kind, location, ...)
  long long get(const std::string &k, long long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
};

inline std::string to_file(const Layers &L) {
  std::string o = std::to_string(L.size()) + "\n"; char b[128];
  for (auto &l : L) { o += std::to_string(l.size()) + " "; for (size_t i = 0; i < l.size(); ++i) { snprintf(b, 128, "%d %zu %lld %lld ", l[i].ty, i, l[i].u, l[i].v); o += b; } o += "\n"; }
  return o;
}
inline std::string ser(const Case &c) {
  std::string o = "seed " + std::to_string(c.seed) + "\n";
  for (auto &k : c.kv) o += "kv " + k.first + " " + std::to_string(k.second) + "\n";
  return o + "circuit\n" + to_file(c.L);
}
inline Case deser(const std::string &s) {
  Case c; std::istringstream is(s); std::string w;
  while (is >> w) {
    if (w == "seed") is >> c.seed;
    else if (w == "kv") { std::string k; long long v; is >> k >> v; c.kv[k] = v; }
    else if (w == "circuit") { int d; is >> d; c.L.resize(d); for (auto &l : c.L) { int n, g; is >> n; l.resize(n); for (auto &x : l) is >> x.ty >> g >> x.u >> x.v; } }
  }
  return c;
}

// number of values a layer carries after padding a single-gate layer to two
inline size_t padded(size_t n) { return n == 1 ? 2 : n; }

inline mpz_class gate_val(const Gate &g, const std::vector<mpz_class> &in) {
  switch (g.ty) {
    case 0: return md(in[g.u] + in[g.v]);
    case 1: return md(in[g.u] * in[g.v]);
    case 2: return 0;
    case 5: { mpz_class s = 0; for (long long k = g.u; k < g.v; ++k) s += in[k]; return md(s); }
    case 6: return md(1 - in[g.u]);
    case 7: return md(in[g.u] - in[g.v]);
    case 8: return md(in[g.u] + in[g.v] - 2 * in[g.u] * in[g.v]);
    case 9: return md(in[g.v] - in[g.u] * in[g.v]);
    case 10: return in[g.u];
    case 12: { mpz_class s = 0, w = 1; for (long long k = g.u; k <= g.v; ++k) { s += w * in[k]; w *= 2; } return md(s); }
    case 13: return md(in[g.u] * (1 - in[g.u]));
  }
  fprintf(stderr, "reference: bad gate type %d\n", g.ty); abort();
}
// reference values of every layer (layer 0 = inputs)
inline std::vector<std::vector<mpz_class>> eval(const Layers &L) {
  std::vector<std::vector<mpz_class>> V(L.size());
  for (size_t i = 0; i < L.size(); ++i) {
    V[i].assign(padded(L[i].size()), 0);
    for (size_t j = 0; j < L[i].size(); ++j)
      V[i][j] = i == 0 ? (L[0][j].ty == 3 ? md(mpz_class(std::to_string(L[0][j].u))) : mpz_class(0)) : gate_val(L[i][j], V[i - 1]);
  }
  return V;
}

// numbers that mean nothing get arbitrary values: the last one of an input, both of an unused gate, the second operand of NOT and relay
inline Layers junk(Layers L, uint64_t seed) {
  Rng r(seed * 31 + 7);
  for (size_t k = 0; k < L.size(); ++k) { long long pv = k ? (long long)padded(L[k - 1].size()) : 0;
    for (auto &g : L[k]) { if (!r.chance(1, 2)) continue; if (k == 0) { if (g.ty == 3) g.v = r.range(-3, 1000000); } else if (g.ty == 2) { g.u = r.range(0, pv - 1); g.v = r.range(0, pv - 1); } else if (g.ty == 6 || g.ty == 10) g.v = r.range(0, pv - 1); } }
  return L;
}
// the same circuit in another concrete layout: spacing, line breaks, leading zeros, numbers without a meaning
inline std::string space(Rng &r) { switch (r.range(0, 4)) { case 0: return "\n"; case 1: return "  "; case 2: return "\t"; case 3: return " \r\n"; default: return " "; } }
inline std::string layout(const Layers &L, Rng &r) {
  auto num = [&](long long x) { char b[64]; if (x >= 0 && r.chance(1, 4)) { snprintf(b, 64, "%015lld", x); return std::string(b); } return std::to_string(x); };
  std::string o = std::to_string(L.size()) + space(r);
  for (auto &l : r.chance(1, 2) ? junk(L, (uint64_t)r.range(1, 1 << 30)) : L) { o += num((long long)l.size()) + space(r); for (size_t i = 0; i < l.size(); ++i) o += std::to_string(l[i].ty) + space(r) + num((long long)i) + space(r) + num(l[i].u) + space(r) + num(l[i].v) + space(r); }
  return o;
}
inline std::string respace(const std::string &s, Rng &r) { std::string o; bool start = true; for (char ch : s) { if (ch == ' ' || ch == '\n') { o += space(r); start = true; continue; } if (start && ch >= '0' && ch <= '9' && r.chance(1, 4)) o += "000"; start = false; o += ch; } return o; }
inline std::string text(const Case &c) { if (c.get("lseed")) { Rng r((uint64_t)c.get("lseed")); return layout(c.L, r); } return to_file(c.seed % 3 ? c.L : junk(c.L, (uint64_t)c.seed)); }
struct GenOpt {
  std::vector<int> types{0, 1, 2, 5, 6, 7, 8, 9, 10};
  int max_log = 4, max_depth = 5; int min_depth = 2;      // file layers including the input layer
  bool single = true;                                       // allow one-gate layers
  bool dummy_inputs = true;
  long long in_lo = -2147483647LL, in_hi = 2147483647LL;
  bool wide_inputs = false;                                 // 64-bit input values
};
inline long long gen_input(Rng &r, const GenOpt &o) {
  switch (r.weighted({3, 3, 2, 2, o.wide_inputs ? 3 : 0})) {
    case 0: return r.range(0, 1);
    case 1: return r.range(std::max(o.in_lo, -9LL), 9);
    case 2: return r.pick(std::vector<long long>{0, 1, 2, o.in_hi, o.in_hi - 1, o.in_lo, 65535, 65536, 1LL << 30, std::max(o.in_lo, -1LL)});
    case 3: return r.range(o.in_lo, o.in_hi);
  }
  switch (r.range(0, 3)) {
    case 0: return r.pick(std::vector<long long>{1LL << 31, (1LL << 31) + 1, 1LL << 32, (1LL << 32) - 1, 1LL << 36, 9223372036854775807LL, 1LL << 62, 68719476735LL << 1});
    case 1: return -r.range(2147483648LL, 9223372036854775807LL);
    default: return r.range(2147483648LL, 9223372036854775807LL);
  }
}
// Gates never read a dummy gate (the format forbids it): operands come from the live gates of the layer below.
inline std::vector<long long> ids_of(const std::vector<char> &live) { std::vector<long long> ids; for (size_t i = 0; i < live.size(); ++i) if (live[i]) ids.push_back((long long)i); return ids; }
inline Gate gen_gate(Rng &r, const std::vector<int> &types, const std::vector<char> &live, const std::vector<long long> &ids) {
  Gate g; g.ty = r.pick(types); g.u = r.pick(ids); g.v = r.pick(ids);
  if (r.chance(1, 6)) g.v = g.u;
  if (r.chance(1, 10)) g.u = ids.back();
  if (r.chance(1, 10)) g.v = ids.front();
  switch (g.ty) {
    case 2: g.u = g.v = 0; break;
    case 5: case 12: {
      long long e = g.u; while (e < (long long)live.size() && live[e]) ++e;        // run of live gates [u,e)
      if (r.chance(1, 4)) { while (g.u > 0 && live[g.u - 1]) --g.u; g.v = e; }
      else g.v = r.range(g.ty == 5 ? g.u : g.u + 1, e);
      if (live.size() > 512 && g.v > g.u + 40 && !r.chance(1, 64)) g.v = g.u + r.range(1, 40);
      if (g.ty == 12) g.v -= 1;
      break; }
    case 6: case 10: g.v = 0; break;
    case 13: g.v = g.u; break;
  }
  return g;
}
inline std::vector<char> live_of(const std::vector<Gate> &l) { std::vector<char> v; for (auto &g : l) v.push_back(g.ty != 2); return v; }
inline Layers gen_layers(Rng &r, const GenOpt &o) {
  Layers L; int d = (int)r.range(o.min_depth, o.max_depth);
  auto size = [&](int mx) -> long long { if (o.single && r.chance(1, 12)) return 1; if (mx > 8 && r.chance(1, 2)) return 1LL << mx; return 1LL << r.range(1, mx); };
  int mx = o.max_log > 8 && r.chance(1, 2) ? o.max_log : (int)r.range(1, o.max_log);
  std::vector<int> types; bool dum = false; for (int t : o.types) { if (t == 2) dum = true; else types.push_back(t); }
  auto dummies = [&](long long n, bool allow) {                                     // which gates of a layer are dummies
    std::vector<char> dm((size_t)n, 0); if (!allow || n < 2) return dm;
    if (r.chance(1, 4)) { long long k = r.range(1, n - 1); for (long long j = n - k; j < n; ++j) dm[j] = 1; }
    if (r.chance(1, 8)) dm[r.range(0, n - 1)] = 1;
    bool all = true; for (char c : dm) all &= c; if (all) dm[r.range(0, n - 1)] = 0; return dm; };
  L.resize(d); long long n = size(mx);
  std::vector<char> dm = dummies(n, o.dummy_inputs);
  for (long long j = 0; j < n; ++j) { Gate g; g.ty = dm[j] ? 2 : 3; g.u = g.ty == 2 ? 0 : gen_input(r, o); g.v = 0; L[0].push_back(g); }
  for (int i = 1; i < d; ++i) {
    std::vector<char> live = live_of(L[i - 1]); std::vector<long long> ids = ids_of(live); n = size(mx); dm = dummies(n, dum);
    std::vector<int> pal = types; int k = (int)r.range(0, 3);                         // per-layer palette
    if (k == 0) pal = {r.pick(types)}; else if (k == 1) pal = {r.pick(types), r.pick(types), r.pick(types)};
    for (long long j = 0; j < n; ++j) L[i].push_back(dm[j] ? Gate{2, 0, 0} : gen_gate(r, pal, live, ids));
  }
  return L;
}

// Structure-preserving reductions of a circuit.
inline bool reads(const Gate &g, long long j) {
  switch (g.ty) { case 2: return false; case 5: return g.u <= j && j < g.v; case 12: return g.u <= j && j <= g.v; case 6: case 10: return g.u == j; default: return g.u == j || g.v == j; }
}
// is the circuit inside the documented domain (operands exist and are not dummies; every layer has a live gate)?
inline bool valid(const Layers &L) {
  if (L.size() < 2) return false;
  for (size_t i = 0; i < L.size(); ++i) {
    bool any = false; for (auto &g : L[i]) any |= g.ty != 2; if (!any) return false;
    size_t n = L[i].size(); if (n & (n - 1)) return false;
    if (i) for (auto &g : L[i]) { if (g.ty == 2) continue; long long pv = (long long)L[i - 1].size(); if (g.u < 0 || g.u >= pv || g.v < 0 || g.v > pv || (g.ty != 5 && g.v >= pv)) return false; for (long long j = 0; j < pv; ++j) if (L[i - 1][j].ty == 2 && reads(g, j)) return false; }
  }
  return true;
}
inline void fix_refs(Layers &L) {
  for (size_t i = 1; i < L.size(); ++i) { long long pv = (long long)L[i - 1].size(); for (auto &g : L[i]) {
    if (g.ty == 2) { g.u = g.v = 0; continue; }
    g.u %= pv; if (g.ty == 5) { if (g.v > pv) g.v = pv; if (g.v < g.u) g.v = g.u; } else if (g.ty == 12) { g.v %= pv; if (g.v < g.u) g.v = g.u; } else if (g.ty == 13) g.v = g.u; else g.v %= pv; } }
}
inline std::vector<Layers> shrink_layers(const Layers &L) {
  std::vector<Layers> out;
  auto add = [&](const Layers &m) { if (valid(m)) out.push_back(m); };
  for (size_t i = 1; i + 1 < L.size() && L.size() > 2; ++i) { Layers m = L; m.erase(m.begin() + i); fix_refs(m); add(m); }
  if (L.size() > 2) { Layers m = L; m.pop_back(); add(m); }
  for (size_t i = 0; i < L.size(); ++i) if (L[i].size() > 2) { Layers m = L; m[i].resize(L[i].size() / 2); fix_refs(m); add(m); }
  for (size_t i = 1; i < L.size(); ++i) for (size_t j = 0; j < L[i].size() && j < 64; ++j) if (L[i][j].ty != 2) {
    Layers m = L; m[i][j] = Gate{2, 0, 0}; add(m);
    if (L[i][j].u) { m = L; m[i][j].u = 0; if (L[i][j].ty == 13) m[i][j].v = 0; add(m); }
    if (L[i][j].v && L[i][j].ty != 13 && L[i][j].ty != 5 && L[i][j].ty != 12) { m = L; m[i][j].v = 0; add(m); } }
  for (size_t j = 0; j < L[0].size() && j < 64; ++j) if (L[0][j].u != 0 && L[0][j].u != 1) { Layers m = L; m[0][j].u = 1; add(m); m[0][j].u = 0; add(m); m[0][j].u = L[0][j].u / 2; add(m); }
  for (size_t j = 0; j < L[0].size() && j < 64; ++j) if (L[0][j].u == 1) { Layers m = L; m[0][j].u = 0; add(m); }
  return out;
}
inline std::vector<std::string> shrink_case(const std::string &s) {
  Case c = deser(s); std::vector<std::string> out;
  for (auto &l : shrink_layers(c.L)) { Case d = c; d.L = l; out.push_back(ser(d)); }
  return out;
}
inline void describe(const Layers &L, pbt::Result &r) {
  std::set<int> t; size_t mx = 0; bool single = false, di = false, neg = false, wide = false;
  for (size_t i = 0; i < L.size(); ++i) { mx = std::max(mx, L[i].size()); if (L[i].size() == 1) single = true; for (auto &g : L[i]) { if (i) t.insert(g.ty); else { if (g.ty == 2) di = true; if (g.u < 0) neg = true; if (g.u > 2147483647LL || g.u < -2147483648LL) wide = true; } } }
  for (int x : t) r.label("gate_type_" + std::to_string(x));
  r.label("layers_" + std::to_string(L.size())); r.label("maxwidth_" + std::to_string(mx));
  if (single) r.label("has_single_gate_layer"); if (di) r.label("has_dummy_input"); if (neg) r.label("has_negative_input"); if (wide) r.label("has_input_beyond_32_bits");
}
}  // namespace circ
