// Zero-knowledge program (src/linear_gkr/zk_{prover,verifier}.cpp, src/VPD): completeness and evaluation, on an ideal
// bilinear group (mock/bn.h). The verifier under test is compiled from /repo with its prover type replaced by a subclass.
#include <chrono>
#include <iostream>
#include <string>
#include <cstring>
#include <utility>
#include <vector>
#include <unordered_map>
#include <new>
#include "circ.h"
#include "fe.h"
#include "fresh.h"
#include "linear_gkr/zk_prover.h"
#include "linear_gkr/transcript.h"
#include <functional>
namespace zh {
using circ::md; using circ::inv; using fe::F;
typedef std::vector<mpz_class> Vz;

struct Meta { int para = 0; long long block = 0, rep = 1; int lb = 0, lr = 0; };
struct Case { circ::Case c; std::vector<Meta> meta; };    // meta[i] belongs to file layer i
static int lg(long long n) { int b = 0; while ((1LL << b) < n) ++b; return b; }
static std::string meta_text(const std::vector<Meta> &m) { std::string o; char b[128]; for (auto &x : m) { snprintf(b, 128, "%d %lld %lld %d %d\n", x.para, x.block, x.rep, x.lb, x.lr); o += b; } return o; }
static std::string ser(const Case &k) { std::string o = "meta " + std::to_string(k.meta.size()) + "\n" + meta_text(k.meta); return o + circ::ser(k.c); }
static Case deser(const std::string &s) {
  Case k; std::istringstream is(s); std::string w; size_t n = 0; is >> w >> n; k.meta.resize(n); for (auto &x : k.meta) is >> x.para >> x.block >> x.rep >> x.lb >> x.lr;
  std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); k.c = circ::deser(rest); return k;
}
static Meta plain(size_t n) { Meta m; m.block = (long long)circ::padded(n); m.rep = 1; m.lb = lg(m.block); m.lr = 0; return m; }
static const std::vector<int> TYPES{0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13};
static void tidy(circ::Layers &L) {       // exponential sums span at most 62 gates; ordinary sums are not empty
  for (size_t i = 1; i < L.size(); ++i) for (auto &g : L[i]) { if (g.ty == 12 && g.v - g.u > 61) g.v = g.u + 61; if (g.ty == 5 && g.v <= g.u) g.v = g.u + 1; }
}
// block circuit -> R copies side by side
static circ::Layers replicate(const circ::Layers &B, long long R, pbt::Rng *r, const circ::GenOpt &o) {
  circ::Layers L(B.size());
  for (size_t i = 0; i < B.size(); ++i) for (long long k = 0; k < R; ++k) for (auto g : B[i]) {
    long long off = i ? k * (long long)B[i - 1].size() : 0;
    if (i == 0) { if (g.ty == 3 && r && k) g.u = circ::gen_input(*r, o); }
    else if (g.ty == 6 || g.ty == 10) g.u += off;
    else if (g.ty != 2) { g.u += off; g.v += off; }
    L[i].push_back(g);
  }
  return L;
}
static Case gen(pbt::Rng &r, const circ::GenOpt &o0) {
  Case k; circ::GenOpt o = o0; o.types = TYPES; long long R = 1;
  if (r.chance(2, 5)) {
    bool many = o.max_depth < 6 && r.chance(1, 25); R = 1LL << (many ? r.range(4, 6) : r.range(0, 3)); circ::GenOpt b = o; b.max_log = many ? (int)r.range(1, 3) : std::max(1, o.max_log - lg(R)); b.single = R > 1;
    circ::Layers B = circ::gen_layers(r, b); tidy(B); k.c.L = replicate(B, R, &r, o);
    for (auto &l : B) { Meta m; m.para = r.chance(3, 4); m.block = (long long)l.size(); m.rep = R; m.lb = lg(m.block); m.lr = lg(R); k.meta.push_back(m); }
    k.meta[0].para = 0;                         // as the translators write it
    if (r.chance(1, 3)) { k.meta[0] = Meta(); k.meta[0].rep = 0; k.meta[1].para = 0; }
    if (r.chance(1, 3)) {                       // further layers without block structure on top
      int extra = (int)r.range(1, 2); std::vector<int> ty; for (int t : TYPES) if (t != 2) ty.push_back(t);
      for (int e = 0; e < extra; ++e) {
        auto live = circ::live_of(k.c.L.back()); auto ids = circ::ids_of(live); std::vector<circ::Gate> l; long long n = 1LL << r.range(1, std::max(1, o.max_log));
        for (long long j = 0; j < n; ++j) l.push_back(circ::gen_gate(r, ty, live, ids)); k.c.L.push_back(l); k.meta.push_back(plain(l.size()));
      }
      tidy(k.c.L);
    }
  } else { k.c.L = circ::gen_layers(r, o); tidy(k.c.L); for (auto &l : k.c.L) k.meta.push_back(plain(l.size())); }
  k.c.seed = (long)r.range(1, 1000000000);
  return k;
}
// Is the block structure the meta file states really there?
static bool meta_ok(const Case &k) {
  if (k.meta.size() != k.c.L.size() || !circ::valid(k.c.L)) return false;
  for (size_t i = 0; i < k.c.L.size(); ++i) {
    const Meta &m = k.meta[i]; if (!m.para) continue;
    const auto &l = k.c.L[i]; if ((long long)l.size() != m.block * m.rep || (1LL << m.lb) != m.block || (1LL << m.lr) != m.rep || l.size() < 2) return false;
    if (i == 0) return false;
    const Meta &q = k.meta[i - 1]; if (q.rep != m.rep || q.block * q.rep != (long long)k.c.L[i - 1].size() || k.c.L[i - 1].size() < 2) return false;
    for (long long c = 0; c < m.rep; ++c) for (long long j = 0; j < m.block; ++j) {
      const auto &g = l[j], &h = l[c * m.block + j]; long long off = c * q.block; if (g.ty != h.ty) return false; if (g.ty == 2) continue;
      if (h.u != g.u + off || g.u >= q.block) return false;
      if (g.ty == 6 || g.ty == 10) { if (h.v != 0) return false; } else if (h.v != g.v + off || (g.ty == 5 ? g.v > q.block : g.v >= q.block)) return false;
    }
  }
  for (size_t i = 1; i < k.c.L.size(); ++i) for (auto &g : k.c.L[i]) { if (g.ty == 12 && (g.v < g.u || g.v - g.u > 61)) return false; if (g.ty == 5 && g.v <= g.u) return false; }
  return true;
}
static std::vector<std::string> shrink(const std::string &s) {
  Case k = deser(s); std::vector<std::string> out;
  auto add = [&](const Case &n) { if (meta_ok(n)) out.push_back(ser(n)); };
  bool par = false; for (auto &m : k.meta) par |= m.para;
  if (par) {
    { Case n = k; for (size_t i = 0; i < n.meta.size(); ++i) n.meta[i] = plain(n.c.L[i].size()); add(n); }
    for (size_t i = 0; i < k.meta.size(); ++i) if (k.meta[i].para) { Case n = k; n.meta[i].para = 0; add(n); }
    // reduce all copies alike
    if (k.meta[0].rep == 0) { Case n = k; n.meta[0] = n.meta[1]; n.meta[0].para = 0; n.meta[0].block = (long long)n.c.L[0].size() / n.meta[0].rep; n.meta[0].lb = lg(n.meta[0].block); add(n); return out; }
    size_t top = 0; while (top < k.meta.size() && k.meta[top].rep == k.meta[0].rep && k.meta[top].block * k.meta[top].rep == (long long)k.c.L[top].size()) ++top;
    long long R = k.meta[0].rep;
    if (top >= 2) {
      circ::Layers B; for (size_t i = 0; i < top; ++i) { B.emplace_back(k.c.L[i].begin(), k.c.L[i].begin() + k.meta[i].block); if (i) for (auto &g : B[i]) (void)g; }
      auto emit = [&](const circ::Layers &b, long long r) { Case n; n.c = k.c; n.c.L = replicate(b, r, nullptr, circ::GenOpt()); for (auto &l : b) { Meta m; m.para = 1; m.block = (long long)l.size(); m.rep = r; m.lb = lg(m.block); m.lr = lg(r); n.meta.push_back(m); } for (size_t i = 0; i < n.meta.size() && b.size() == top; ++i) n.meta[i].para = k.meta[i].para; n.meta[0].para = 0; add(n); };
      if (R > 1) emit(B, R / 2); if (top < k.meta.size()) emit(B, R);
      for (auto &b : circ::shrink_layers(B)) emit(b, R);
    }
  } else for (auto &l : circ::shrink_layers(k.c.L)) { Case n = k; n.c.L = l; tidy(n.c.L); n.meta.clear(); for (auto &x : l) n.meta.push_back(plain(x.size())); add(n); }
  return out;
}

// what the prover sent, and which challenges it was given (honest sessions only)
struct Ev { std::string name; int layer; std::string key; mpz_class z; size_t at; bool optional; };
struct Ch { std::string name; int layer; mpz_class z; size_t not_before; };
struct Rec { std::vector<Ev> ev; std::vector<Ch> ch; size_t last = 0; };
struct Session {
  fresh::Vals *masks = nullptr;   // every mask the prover draws
  Rec *rec = nullptr; std::function<void(proof_transcript &)> after;
  bool fixed = false; pbt::Rng frng{1}; long base = 0, vary = 0; int vary_hook = -1;   // challenges chosen in advance; randomness of the prover per stage
  circ::Layers L; Vz true_out, claimed_out;
  Vz committed;            // inputs the prover committed to
  // 0 honest, 1 output lie only, 2 adaptive, 3 wrong circuit, 4 one altered message, 5 output lie hidden by the prover-side output evaluation,
  // 6 other inputs committed than evaluated, 7 output lie moved into the claimed mask sum
  int kind = 0;
  long long loc = -1, shape = 0, absorb = 0, dk = 0, opos = 0, tloc = -1, tcomp = 0, side = 0; uint64_t mseed = 0;
  long check_no = 0, msg_no = 0; bool skip_open = false; bool dropped = false, tampered = false;
  mpz_class delta;         // what the verifier expects minus what the honest messages give
  mpz_class alpha, beta; Vz r0, r1, ru, rv; int layer = 0; mpz_class dr, prev;
  mpz_class d[3]; bool have_last = false; std::string what;
  pbt::Rng rng{1};
};
static Session *S;
static int bitlen(const circ::Layers &L, int i) { return lg((long long)circ::padded(L[i <= 1 ? 0 : i - 1].size())); } // i = internal layer; internal 0,1 = file layer 0
static Vz eqtab(const Vz &r) { Vz t{1}; for (size_t i = 0; i < r.size(); ++i) { Vz n(t.size() * 2); for (size_t j = 0; j < t.size(); ++j) { n[j | (1u << i)] = md(t[j] * r[i]); n[j] = md(t[j] * (1 - r[i])); } t = n; } return t; }
static mpz_class mle(const Vz &v, const Vz &r) { auto e = eqtab(r); mpz_class s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i] * e[i]; return md(s); }
// layer relation at (r_u,r_v): c0 + c1 vu + c2 vv + c3 vu vv
static void semi(const circ::Layers &L, int i, const Session &s, mpz_class c[4]) {
  for (int k = 0; k < 4; ++k) c[k] = 0;
  if (i == 1) { c[1] = s.dr; return; }
  auto bu = eqtab(s.ru), bv = eqtab(s.rv), g0 = eqtab(s.r0), g1 = eqtab(s.r1);
  const auto &l = L[i - 1];
  for (size_t g = 0; g < l.size(); ++g) {
    mpz_class w = md(s.alpha * g0[g] + s.beta * g1[g]); const auto &x = l[g];
    if (x.ty == 2) continue;
    mpz_class w2 = (x.ty == 5 || x.ty == 12) ? mpz_class(0) : md(w * bu[x.u] * bv[x.ty == 6 || x.ty == 10 ? 0 : x.v]), e = 1;
    switch (x.ty) {
      case 0: c[1] += w2; c[2] += w2; break;
      case 1: c[3] += w2; break;
      case 5: for (long long j = x.u; j < x.v; ++j) c[1] += w * bu[j] * bv[0]; break;
      case 6: c[0] += w2; c[1] -= w2; break;
      case 7: c[1] += w2; c[2] -= w2; break;
      case 8: c[1] += w2; c[2] += w2; c[3] -= 2 * w2; break;
      case 9: c[2] += w2; c[3] -= w2; break;
      case 10: c[1] += w2; break;
      case 12: for (long long j = x.u; j <= x.v; ++j) { c[1] += w * bu[j] * bv[0] % circ::P() * e; e *= 2; } break;
      case 13: c[1] += w2; c[3] -= w2; break;
    }
  }
  for (int k = 0; k < 4; ++k) c[k] = md(c[k]);
}
typedef std::vector<bn::Ec1> VE; typedef std::pair<VE, VE> PE;

class trans_t; static trans_t *TR = nullptr;
class trans_t : public proof_transcript {
public:
  trans_t() { TR = this; }
  F *random(int n) { F *x = proof_transcript::random(n); if (S && S->fixed) for (int i = 0; i < n; ++i) { x[i] = fe::put(fe::rnd(S->frng)); msg[msg.size() - n + i] = container(x[i], container::randomness_indicator); } return x; }
  F random() { F *a = random(1), r = a[0]; delete[] a; return r; }
};
// the masks as the prover holds them (nothing is collected if they are kept elsewhere)
template <class A> void masks(const char *w, const A &a, size_t n) { if (S->masks) for (size_t i = 0; i < n; ++i) S->masks->push_back({std::string(w) + "[" + std::to_string(i) + "] of layer " + std::to_string(S->layer), fe::get(a[i])}); }
template <class P> auto masks_input(P &p, int) -> decltype((void)fe::get(p.maskr[0])) { masks("input mask", p.maskr, 2); }
template <class P> void masks_input(P &, long) {}
template <class P> auto masks_R(P &p, int) -> decltype((void)fe::get(p.maskR[0])) { masks("claim mask", p.maskR, 6); }
template <class P> void masks_R(P &, long) {}
template <class P> auto masks_poly(P &p, int n, int) -> decltype((void)fe::get(p.maskpoly[0])) { masks("round mask", p.maskpoly, (size_t)n); }
template <class P> void masks_poly(P &, int, long) {}
static std::string ckey(const bn::Ec1 &e) { return "c" + std::string((const char *)&e, sizeof e); }
static std::string fkey(const mpz_class &z) { return "f" + z.get_str(); }
class cheat_zk : public zk_prover {
public:
  void stage(int id) { if (S->fixed) { uint64_t h = (uint64_t)S->base * 1000003 + id * 7919 + (id == S->vary_hook ? (uint64_t)S->vary * 104729 : 0); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; srand((unsigned)h); } }
  void sent(const char *w, const F &f, bool opt = false) { if (S->rec) { mpz_class z = fe::get(f); S->rec->ev.push_back({w, S->layer, fkey(z), z, TR->msg.size(), opt}); S->rec->last = TR->msg.size(); } }
  void sent(const char *w, const mpz_class &z, bool opt) { if (S->rec) S->rec->ev.push_back({w, S->layer, fkey(md(z)), md(z), TR->msg.size(), opt}); }
  void sent(const char *w, const VE &v) { if (S->rec) { for (auto &e : v) S->rec->ev.push_back({w, S->layer, ckey(e), 0, TR->msg.size(), false}); S->rec->last = TR->msg.size(); } }
  void got(const char *w, const mpz_class &z, size_t nb) { if (S->rec) S->rec->ch.push_back({w, S->layer, z, nb}); }
  size_t layer_start = 0, digests_at = 0;
  layered_circuit own; F *honest = nullptr;
  template <class T> void get_circuit(const T &from) {     // an own copy, so that the prover's (possibly wrong) circuit is not the verifier's
    own.total_depth = from.total_depth; own.circuit = new layer[from.total_depth];
    for (int i = 0; i < from.total_depth; ++i) { own.circuit[i] = from.circuit[i]; size_t n = (size_t)1 << from.circuit[i].bit_length; own.circuit[i].gates = new gate[n]; for (size_t j = 0; j < n; ++j) own.circuit[i].gates[j] = from.circuit[i].gates[j]; }
    zk_prover::get_circuit(own);
  }
  // --- altered messages
  bool hit(const char *w) { if (S->kind != 4 || (S->skip_open && !strncmp(w, "opening", 7)) || S->msg_no++ != S->tloc) return false; S->tampered = true; S->what = w; return true; }
  void alter(F &f) { f = fe::put(fe::get(f) + fe::delta(S->dk, S->rng)); }
  void alter(mpz_class &z) { z = md(z + fe::delta(S->dk, S->rng)); }
  void alter(bn::Ec1 &e) { e.s = e.s.add(bn_ideal::S::of(fe::delta(S->dk, S->rng))); }
  void alter_list(VE &v, const char *w) { for (auto &e : v) if (hit(w)) alter(e); }
  void alter_open(PE &p, mpz_class &ans, const char *w) { if (hit(w)) alter(ans); alter_list(p.first, w); alter_list(p.second, w); }
  // --- statement
  template <class... A> auto evaluate(A &&... a) -> decltype(zk_prover::evaluate(std::forward<A>(a)...)) {
    auto out = zk_prover::evaluate(std::forward<A>(a)...); honest = out;
    size_t n = circ::padded(S->L.back().size()); S->true_out.clear();
    for (size_t i = 0; i < n; ++i) S->true_out.push_back(fe::get(out[i]));
    S->claimed_out = S->true_out; S->delta = 0;
    if (S->kind == 1 || S->kind == 2 || S->kind == 5 || S->kind == 7) {
      mpz_class d = fe::delta(S->dk, S->rng); size_t p = (size_t)(S->opos % (long long)n);
      auto *fake = new F[n]; for (size_t i = 0; i < n; ++i) fake[i] = out[i];
      fake[p] = fe::put(S->true_out[p] + d); S->claimed_out[p] = md(S->true_out[p] + d); return fake;
    }
    return out;
  }
  template <class A, class B, class C_, class... R> auto V_res(A &&a, B &&b, C_ &&c, R &&... r) -> decltype(zk_prover::V_res(a, b, c, r...)) { if (S->kind == 5) return zk_prover::V_res(a, b, honest, r...); return zk_prover::V_res(a, b, c, r...); }
  template <class... A> PE keygen_and_commit(A &&... a) {
    S->layer = 0; stage(0);
    if (S->kind == 6) { pbt::Rng q(S->mseed); size_t n = (size_t)1 << own.circuit[0].bit_length; size_t j = (size_t)q.range(0, (long long)n - 1); auto &g = own.circuit[0].gates[j]; g.ty = 3; g.u = circ::gen_input(q, circ::GenOpt()); }
    PE d = zk_prover::keygen_and_commit(std::forward<A>(a)...); masks_input((zk_prover &)*this, 0);
    S->committed.clear(); size_t n = (size_t)1 << own.circuit[0].bit_length; for (size_t j = 0; j < n; ++j) S->committed.push_back(own.circuit[0].gates[j].ty == 3 ? md(mpz_class(std::to_string(own.circuit[0].gates[j].u))) : mpz_class(0));
    // the digests in use: first[0..1] and second[0..1]
    alter_list(d.first, "input digest"); alter_list(d.second, "input digest"); sent("input digest", d.first); sent("input digest", d.second); return d;
  }
  // --- layers
  template <class A, class B, class C_, class D, class E, class... R>
  VE sumcheck_init(int layer_id, A &&bg, B &&bu, C_ &&bv, D &&al, E &&be, const F *R0, const F *R1, R &&... rest) {
    stage(2 * layer_id); VE d = zk_prover::sumcheck_init(layer_id, bg, bu, bv, al, be, R0, R1, rest...);
    bool top = layer_id == (int)S->L.size();
    S->layer = layer_id; S->alpha = fe::get(al); S->beta = fe::get(be); if (layer_id > 1) masks_R((zk_prover &)*this, 0);
    S->r0.clear(); S->r1.clear(); S->ru.clear(); S->rv.clear(); int g = bitlen(S->L, layer_id);
    for (int i = 0; i < g; ++i) { S->r0.push_back(fe::get(R0[i])); S->r1.push_back(fe::get(R1[i])); }
    if (S->kind == 2 || S->kind == 7) {
      if (top) { Vz e; for (size_t i = 0; i < S->true_out.size(); ++i) e.push_back(S->claimed_out[i] - S->true_out[i]); S->delta = md(S->alpha * mle(e, S->r0) + S->beta * mle(e, S->r1)); }
      else S->delta = md(S->alpha * (fvu - hvu) + S->beta * (fvv - hvv));
      S->have_last = false; S->prev = 0;
    }
    layer_start = S->rec ? S->rec->last : 0;
    if (top) for (int i = 0; i < g; ++i) { got("r_0", S->r0[i], layer_start); got("r_1", S->r1[i], layer_start); }
    else { got("alpha", S->alpha, layer_start); got("beta", S->beta, layer_start); }
    alter_list(d, "mask R digest"); sent("mask R digest", d); return d;
  }
  template <class... R> VE generate_maskpoly_pre_rho(R &&... r) {
    stage(2 * S->layer + 1); VE d = zk_prover::generate_maskpoly_pre_rho(r...); late = false; masks_poly((zk_prover &)*this, 4 * bitlen(S->L, S->layer - 1) + 9, 0);
    if (hit("mask sum")) { keep_sum = maskpoly_sumc; late = true; alter(maskpoly_sumc); }
    else if (S->kind == 7 && S->mseed % 2 && S->delta != 0) { keep_sum = maskpoly_sumc; late = true; maskpoly_sumc = fe::put(fe::get(maskpoly_sumc) - S->delta * inv(fe::rnd(S->rng))); }   // a guess at rho
    alter_list(d, "mask digest"); sent("mask sum", maskpoly_sumc, true); sent("mask digest", d); digests_at = TR->msg.size(); return d;
  }
  template <class... R> void generate_maskpoly_after_rho(R &&... r) {
    if (late) { maskpoly_sumc = keep_sum; late = false; }
    zk_prover::generate_maskpoly_after_rho(r...); got("rho", fe::get(this->rho), layer_start);
    if (S->kind == 7 && S->delta != 0) { keep_sum = maskpoly_sumc; late = true; maskpoly_sumc = fe::put(fe::get(maskpoly_sumc) - S->delta); }   // hide the lie in a mask sum claimed too late
  }
  void sumcheck_phase1_init() { if (late) { maskpoly_sumc = keep_sum; late = false; } zk_prover::sumcheck_phase1_init(); }
  bool late = false; F keep_sum;
  mpz_class fvu, fvv, hvu, hvv, true_vu; bool tricky = false;
  void corr(int j, bool ph2, mpz_class d[3]) {     // d(0)+d(1) = delta; coefficients of x^2, x, 1
    mpz_class g, &delta = S->delta; bool root = true;
    switch (S->shape) { case 1: g = 0; break; case 2: g = 1; break; case 4: g = S->prev; break; case 5: g = j < (int)S->r0.size() ? S->r0[j] : mpz_class(0); break; case 6: g = ph2 && j < (int)S->ru.size() ? S->ru[j] : (j < (int)S->r1.size() ? S->r1[j] : mpz_class(1)); break; default: root = false; }
    d[0] = d[1] = d[2] = 0; if (root && md(1 - 2 * g) == 0) root = false;
    if (root) { mpz_class c = md(delta * inv(1 - 2 * g)); d[1] = c; d[2] = md(-c * g); }
    else if (S->shape == 3) d[0] = delta;
    else if (S->shape == 7) { d[0] = fe::rnd(S->rng); d[1] = fe::rnd(S->rng); d[2] = md((delta - d[0] - d[1]) * inv(2)); }
    else d[2] = md(delta * inv(2));
  }
  void fold(const mpz_class &x) { if (S->have_last) { S->delta = md(S->d[0] * x * x + S->d[1] * x + S->d[2]); S->have_last = false; } S->prev = x; }
  // adversarial correction of one round message with low coefficients (lo2, lo1, lo0)
  void round(F &lo2, F &lo1, F &lo0, const mpz_class &prev_rand, int j, bool ph2) {
    if (S->kind != 2) return;
    if (j > 0) fold(prev_rand);
    if (S->check_no == S->loc) S->dropped = true;
    S->check_no++;
    if (S->dropped || S->delta == 0) return;
    corr(j, ph2, S->d); S->have_last = true;
    lo2 = fe::put(fe::get(lo2) + S->d[0]); lo1 = fe::put(fe::get(lo1) + S->d[1]); lo0 = fe::put(fe::get(lo0) + S->d[2]);
  }
  template <class A, class... R> quadratic_poly sumcheck_phase1_update(A &&pr, int j, R &&... r) {
    quadratic_poly q = zk_prover::sumcheck_phase1_update(pr, j, r...); round(q.a, q.b, q.c, fe::get(pr), j, false);
    if (hit("phase 1 message")) alter(S->tcomp % 3 == 0 ? q.a : S->tcomp % 3 == 1 ? q.b : q.c); sent3("phase 1 message", q); return q;
  }
  template <class Q> void alter5(Q &q, const char *w) { if (hit(w)) { F *c[] = {&q.a, &q.b, &q.c, &q.d, &q.e, &q.f}; alter(*c[S->tcomp % 6]); } for (F *c : {&q.a, &q.b, &q.c, &q.d, &q.e, &q.f}) sent(w, *c); }
  template <class Q> void sent3(const char *w, Q &q, bool opt = false) { for (F *c : {&q.a, &q.b, &q.c}) sent(w, *c, opt); }
  template <class A, class... R> quintuple_poly sumcheck_phase1_updatelastbit(A &&pr, int j, R &&... r) {
    quintuple_poly q = zk_prover::sumcheck_phase1_updatelastbit(pr, j, r...); round(q.d, q.e, q.f, fe::get(pr), j, false); alter5(q, "phase 1 last message"); return q;
  }
  template <class A, class... R> void sumcheck_phase2_init(A &&pr, const F *r_u, R &&... r) {
    zk_prover::sumcheck_phase2_init(pr, r_u, r...);
    int lu = bitlen(S->L, S->layer - 1); S->ru.clear(); for (int i = 0; i < lu; ++i) S->ru.push_back(fe::get(r_u[i])); S->rv.clear(); S->dr = 0;
    if (S->layer == 1) { auto e0 = eqtab(S->r0), e1 = eqtab(S->r1), eu = eqtab(S->ru); mpz_class s = 0; for (size_t i = 0; i < eu.size(); ++i) s += (S->alpha * e0[i] + S->beta * e1[i]) * eu[i]; S->dr = md(s); }
    true_vu = fe::get(v_u); tricky = false; for (auto &x : S->ru) got("r_u", x, digests_at); if (S->layer == 1) sent("claim", v_u, true);
    if (S->kind != 2) return;
    fold(S->ru.back()); S->prev = 0;
    if (S->layer == 1 && !S->dropped && S->dr != 0 && S->delta != 0) {
      if (S->absorb % 4 == 0) { v_u = fe::put(true_vu + S->delta * inv(S->dr)); S->delta = 0; }      // lie about V(r_u): the input opening must catch it
      else if (S->absorb % 4 == 1) { v_u = fe::put(true_vu - S->delta * inv(S->dr)); tricky = true; } // change the answer half-way through phase 2
    }
  }
  // tricky: first message carries +2 delta as a constant (checked against delta + dr (vu - vu')), afterwards v_u is put right
  bool trick(F &c, int j, const mpz_class &pr) {
    if (S->layer != 1 || !tricky) return false;
    if (j == 0) { c = fe::put(fe::get(c) + S->delta); S->check_no++; return true; }
    if (j == 1) { v_u = fe::put(true_vu); tricky = false; S->delta = 0; S->have_last = false; }
    (void)pr; return false;
  }
  template <class A, class... R> quadratic_poly sumcheck_phase2_update(A &&pr, int j, R &&... r) {
    quadratic_poly q = zk_prover::sumcheck_phase2_update(pr, j, r...); if (j > 0) S->rv.push_back(fe::get(pr));
    if (!trick(q.c, j, fe::get(pr))) round(q.a, q.b, q.c, fe::get(pr), j, true);
    if (hit("phase 2 message")) alter(S->tcomp % 3 == 0 ? q.a : S->tcomp % 3 == 1 ? q.b : q.c); sent3("phase 2 message", q); return q;
  }
  template <class A, class... R> quintuple_poly sumcheck_phase2_updatelastbit(A &&pr, int j, R &&... r) {
    quintuple_poly q = zk_prover::sumcheck_phase2_updatelastbit(pr, j, r...); if (j > 0) S->rv.push_back(fe::get(pr));
    if (!trick(q.f, j, fe::get(pr))) round(q.d, q.e, q.f, fe::get(pr), j, true);
    alter5(q, "phase 2 last message"); return q;
  }
  template <class A, class... R> std::pair<F, F> sumcheck_finalize(A &&pr, R &&... r) {
    S->rv.push_back(fe::get(pr));
    mpz_class early = fe::get(v_u);
    v_u = fe::put(true_vu);
    std::pair<F, F> fc = zk_prover::sumcheck_finalize(pr, r...);
    hvu = fe::get(fc.first); hvv = fe::get(fc.second); fvu = S->layer == 1 ? early : hvu; fvv = hvv;
    if (S->kind == 2) {
      if (tricky) { fvu = true_vu; tricky = false; S->delta = 0; }
      fold(S->rv.back());
      if (S->check_no == S->loc) S->dropped = true;
      S->check_no++;
      if (S->layer == 1) { if (!S->dropped && S->dr != 0 && S->delta != 0 && S->absorb % 4 == 2) { fvu = md(early + S->delta * inv(S->dr)); S->delta = 0; } }  // repair the relation only at the very end
      else if (!S->dropped && S->delta != 0 && S->absorb < 12) {
        mpz_class c[4]; semi(S->L, S->layer, *S, c); mpz_class h = md(c[0] + c[1] * hvu + c[2] * hvv + c[3] * hvu * hvv), T = md(h + S->delta);
        auto solve_v = [&]() { mpz_class b = md(c[2] + c[3] * hvu); if (b == 0) return false; fvu = hvu; fvv = md((T - c[0] - c[1] * hvu) * inv(b)); return true; };
        auto solve_u = [&]() { mpz_class b = md(c[1] + c[3] * hvv); if (b == 0) return false; fvv = hvv; fvu = md((T - c[0] - c[2] * hvv) * inv(b)); return true; };
        auto both = [&](mpz_class du, mpz_class dv) { mpz_class qa = md(c[3] * du * dv), B = md(c[1] * du + c[2] * dv + c[3] * (hvu * dv + hvv * du)), Cc = md(h - T), t; if (qa == 0) { if (B == 0) return false; t = md(-Cc * inv(B)); } else { mpz_class sq; if (!fe::msqrt(md(B * B - 4 * qa * Cc), sq)) return false; t = md((sq - B) * inv(2 * qa)); } fvu = md(hvu + t * du); fvv = md(hvv + t * dv); return true; };
        bool done = false;
        switch (S->absorb % 6) { case 0: case 1: done = solve_v(); break; case 2: done = solve_u(); break; case 3: done = both(1, -1); break; case 4: done = both(S->beta, md(-S->alpha)); break; default: { mpz_class t = fe::rnd(S->rng); done = both(1, t); } }
        if (!done) done = solve_v(); if (!done) done = solve_u();
        if (done) S->delta = 0;
      }
      fc.first = fe::put(fvu); fc.second = fe::put(fvv); v_u = fc.first; v_v = fc.second;
    }
    if (S->layer == 1 || S->tcomp % 2 == 0) { if (hit("claim V(r_u)")) { alter(fc.first); } }
    else if (hit("claim V(r_v)")) alter(fc.second);
    for (auto &x : S->rv) got("r_v", x, digests_at);
    sent("claim", fc.first, true); sent("claim", fc.second, true);
    return fc;
  }
  // the last round (variable of the mask R) and the prover-side fields a verifier must not rely on
  template <class A, class B, class C_> quadratic_poly sumcheck_finalround(A &&a, B &&b, C_ &&c) {
    quadratic_poly q = zk_prover::sumcheck_finalround(a, b, c);
    if (S->kind == 2) {
      if (S->check_no == S->loc) S->dropped = true;
      S->check_no++;
      if (!S->dropped && S->delta != 0) {
        mpz_class d[3]; bool done = false;
        mpz_class iu = fe::get(Iuv), zu = fe::get(preZu), zv = fe::get(preZv), g1[3] = {fe::get(Rg1.a), fe::get(Rg1.b), fe::get(Rg1.c)}, g2[3] = {fe::get(Rg2.a), fe::get(Rg2.b), fe::get(Rg2.c)};
        auto lin = [&](mpz_class p[3], F &field) {   // d = x p with d(0)+d(1) = delta
          mpz_class sum = md(p[0] + p[1] + 2 * p[2]); if (sum == 0) return false; mpz_class x = md(S->delta * inv(sum)); for (int k = 0; k < 3; ++k) d[k] = md(x * p[k]); field = fe::put(fe::get(field) + x); return true; };
        mpz_class p[3];
        if (S->side == 1) { for (int k = 0; k < 3; ++k) p[k] = md(S->alpha * zu * g1[k] + S->beta * zv * g2[k]); done = lin(p, Iuv); }
        else if (S->side == 8 || S->side == 9) { for (int k = 0; k < 3; ++k) p[k] = S->side == 8 ? md(S->alpha * zu * g1[k]) : md(S->beta * zv * g2[k]); done = lin(p, Iuv); }
        else if (S->side == 2) { for (int k = 0; k < 3; ++k) p[k] = md(S->alpha * iu * g1[k]); done = lin(p, preZu); }
        else if (S->side == 3) { for (int k = 0; k < 3; ++k) p[k] = md(S->beta * iu * g2[k]); done = lin(p, preZv); }
        else if (S->side == 4 || S->side == 5) {     // open the mask R at another point
          bool u = S->side == 4; F &field = u ? prepreu1 : preprev1; mpz_class z = fe::get(field), w = u ? md(S->alpha * iu * zu) : md(S->beta * iu * zv), m[6]; for (int k = 0; k < 6; ++k) m[k] = fe::get(preR[k]);
          // w (2 a1 (x-z) + 2 a2 (x^2-z^2) + a5 (x-z)) = delta
          if (w != 0) { mpz_class A2 = md(2 * m[2]), B1 = md(2 * m[1] + m[5]), Cc = md(-A2 * z * z - B1 * z - S->delta * inv(w)), sq, x; bool ok = true; if (A2 == 0) { ok = B1 != 0; if (ok) x = md(-Cc * inv(B1)); } else { ok = fe::msqrt(md(B1 * B1 - 4 * A2 * Cc), sq); if (ok) x = md((sq - B1) * inv(2 * A2)); }
            if (ok) { d[0] = 0; d[1] = md(w * m[5] * (x - z)); d[2] = md(w * (m[1] * (x - z) + m[2] * (x * x - z * z))); field = fe::put(x); done = true; } }
        }
        if (!done) corr(0, true, d);
        S->delta = 0;  // either absorbed or lost
        q.a = fe::put(fe::get(q.a) + d[0]); q.b = fe::put(fe::get(q.b) + d[1]); q.c = fe::put(fe::get(q.c) + d[2]);
      }
    }
    if (hit("last round message")) alter(S->tcomp % 3 == 0 ? q.a : S->tcomp % 3 == 1 ? q.b : q.c);
    sent3("last round message", q, true);
    return q;
  }
  template <class A> PE prove_R(A &&a, mpz_class &ans) { PE p = zk_prover::prove_R(a, ans); alter_open(p, ans, "opening of mask R"); got("r_c", md(mpz_class(a[1])), digests_at); sent_open("opening of mask R", p, ans); return p; }
  void sent_open(const char *w, const PE &p, const mpz_class &ans) { sent(w, ans, true); sent(w, p.first); sent(w, p.second); }
  template <class A> PE prove_mask(A &&a, mpz_class &ans) { PE p = zk_prover::prove_mask(a, ans); alter_open(p, ans, "opening of the mask polynomial"); sent_open("opening of the mask polynomial", p, ans); return p; }
  template <class A, class B> PE prove_input(A &&a, mpz_class &ans, B &&z) {
    if (S->kind == 2) S->check_no++;
    mpz_class zz = z;
    if (S->kind == 2 && fvu != hvu && S->side == 6) { // another mask factor at the input, in case the verifier takes it from the prover
      mpz_class m = md(fe::get(maskr[0]) + fe::get(maskr[1]) * S->ru.back()); if (m != 0) { zz = md(zz + (fvu - hvu) * inv(m)); Zu = fe::put(zz); } }
    PE p = zk_prover::prove_input(a, ans, zz);
    if (S->kind == 2 && S->side == 7) ans = fvu;      // claim a false value for the opening
    alter_open(p, ans, "opening of the input"); sent_open("opening of the input", p, ans); return p;
  }
};
}
#define zk_prover zh::cheat_zk
#define proof_transcript zh::trans_t
#include "linear_gkr/zk_verifier.h"
#include SRC_VERIFIER
#undef zk_prover
#undef proof_transcript
namespace zh {
alignas(64) static char P_mem[sizeof(cheat_zk)];
static void enter_scratch() {
  static pid_t me = 0; if (me == getpid()) return; me = getpid();
  const char *t = getenv("TMPDIR"); std::string s = std::string(t ? t : "/tmp") + "/zk-XXXXXX"; std::vector<char> b(s.begin(), s.end()); b.push_back(0);
  if (!mkdtemp(b.data()) || chdir(b.data())) abort();
}
static bool session(const Case &k, Session &s, std::function<void(layered_circuit &)> mutate = nullptr) {
  enter_scratch(); S = &s; s.L = k.c.L;
  memset(P_mem, 0, sizeof P_mem); cheat_zk *p = new (P_mem) cheat_zk; zk_verifier v;
  pbt::Rng lr((uint64_t)k.c.get("lseed")); fe::MemFile cf(circ::text(k.c)), mf(k.c.get("lseed") ? circ::respace(meta_text(k.meta), lr) : meta_text(k.meta));
  p->total_time = 0; v.get_prover(p); v.read_circuit(cf.path.c_str(), mf.path.c_str()); p->get_circuit(v.C);
  if (mutate) mutate(p->own);
  unlink("proof.bin"); bool ok = v.verify("result.txt"); if (s.after) s.after(v.trans); return ok;
}
static std::string outs(const Vz &v) { std::string o; for (auto &x : v) o += x.get_str() + " "; return o; }
static int nlive(const circ::Layers &L) { int n = 0; for (size_t i = 1; i < L.size(); ++i) for (auto &g : L[i]) n += g.ty != 2; return n; }
static void describe(const Case &k, pbt::Result &r) { circ::describe(k.c.L, r); int np = 0; for (size_t i = 1; i < k.meta.size(); ++i) np += k.meta[i].para; if (np) r.label("parallel_copies_" + std::to_string(k.meta[1].rep)); if (np && k.meta.back().rep != k.meta[1].rep) r.label("plain_layers_over_parallel"); }
static pbt::Result check_complete(const std::string &doc) {
  pbt::Result r; Case k = deser(doc); describe(k, r); r.nontrivial = nlive(k.c.L) >= 3;
  srand((unsigned)k.c.seed); Session s; bool ok = session(k, s); auto ref = circ::eval(k.c.L);
  if (s.true_out != ref.back()) r.fail("outputs differ from the reference evaluation: got " + outs(s.true_out) + "expected " + outs(ref.back()));
  if (!ok) r.fail("the verifier rejected the honest prover");
  S->kind = 0; if (!fe::vres_ok(*(::zk_prover *)P_mem, s.true_out, 0, (uint64_t)k.c.seed)) r.fail("the prover's value of the output polynomial at a point is not that of its multilinear extension");
  return r;
}
static long n_checks(const circ::Layers &L) { long n = 0; for (int i = (int)L.size(); i >= 1; --i) n += 2 * bitlen(L, i - 1) + 2; return n + 1; }
static long n_msgs(const circ::Layers &L, bool skip_open = false) { long n = 4; if (skip_open) { for (int i = (int)L.size(); i >= 1; --i) n += 2 + 1 + 2 + 2 * bitlen(L, i - 1) + 2; return n; } for (int i = (int)L.size(); i >= 1; --i) { int b = bitlen(L, i - 1); n += 2 + 1 + 2 + 2 * b + 1 + 1 + 2 * (1 + 6) + 1 + 2 * (2 * b + 2); } return n + 1 + 2 * (bitlen(L, 0) + 1); }
static pbt::Result check_sound(const std::string &doc) {
  pbt::Result r; Case k = deser(doc); circ::Case &c = k.c; describe(k, r);
  Session s; s.kind = (int)c.get("kind"); s.rng = pbt::Rng((uint64_t)c.seed * 77 + 5);
  s.shape = c.get("shape"); s.absorb = c.get("absorb"); s.dk = c.get("dk"); s.opos = c.get("opos"); s.tcomp = c.get("tcomp"); s.side = c.get("side"); s.mseed = (uint64_t)c.get("mseed");
  long nc = n_checks(c.L); s.loc = c.get("loc") < 0 ? -1 : c.get("loc") % nc; if (s.kind == 4) { s.skip_open = c.get("skipo"); s.tloc = c.get("tloc") % n_msgs(c.L, s.skip_open); }
  srand((unsigned)c.seed); std::function<void(layered_circuit &)> mut;
  if (s.kind == 3) mut = [&](layered_circuit &o) {
    pbt::Rng q((uint64_t)c.get("mseed")); int i = (int)q.range(2, o.total_depth - 1); size_t n = c.L[i - 1].size(); auto &g = o.circuit[i].gates[(size_t)q.range(0, (long long)n - 1)];
    long long pv = (long long)circ::padded(c.L[i - 2].size());
    switch (q.range(0, 3)) {
      case 0: { int t = TYPES[q.range(0, (long long)TYPES.size() - 1)]; g.ty = t; if (t == 6 || t == 10) g.v = 0; break; }
      case 1: g.u = (int)q.range(0, pv - 1); break;
      case 2: g.v = (int)q.range(0, pv - 1); break;
      default: std::swap(g.u, g.v);
    }
    if (g.u >= pv) g.u = pv - 1;
    if (g.ty == 13) g.v = g.u; if (g.ty == 6 || g.ty == 10) g.v = 0; if (g.ty == 2) g.u = g.v = 0; if (g.ty == 12) { if (g.v >= pv) g.v = pv - 1; if (g.v < g.u) g.v = g.u; if (g.v > g.u + 61) g.v = g.u + 61; } if (g.ty == 5) { if (g.v <= g.u) g.v = g.u + 1; if (g.v > pv) g.v = pv; } else if (g.v >= pv) g.v = pv - 1;
  };
  bool ok = session(k, s, mut);
  // the true outputs of the circuit on the inputs the prover committed to
  circ::Layers L2 = c.L; std::vector<Vz> V(L2.size()); V[0] = s.committed; for (size_t i = 1; i < L2.size(); ++i) { V[i].assign(circ::padded(L2[i].size()), 0); for (size_t j = 0; j < L2[i].size(); ++j) V[i][j] = circ::gate_val(L2[i][j], V[i - 1]); }
  bool wrong = s.claimed_out != V.back(), must_reject = wrong || (s.kind == 4 && s.tampered);
  r.nontrivial = must_reject; r.label("adversary_kind_" + std::to_string(s.kind));
  if (s.kind == 2) { r.label("shape_" + std::to_string(s.shape)); r.label("absorb_" + std::to_string(s.absorb)); r.label("side_" + std::to_string(s.side)); r.label(s.loc < 0 ? "never_drops" : "drops"); }
  if (s.tampered) r.label("altered " + s.what);
  if (s.kind == 3 || s.kind == 6) r.label(wrong ? "wrong_evaluation_changes_output" : "wrong_evaluation_same_output");
  if (must_reject && ok) r.fail(wrong ? "the verifier accepted a wrong output (claimed " + outs(s.claimed_out) + "true " + outs(V.back()) + "; adversary kind " + std::to_string(s.kind) + ")" : "the verifier accepted although a message was altered: " + s.what);
  return r;
}
static std::string gen_sound(pbt::Rng &r, long i) {
  circ::GenOpt o; o.wide_inputs = true; o.max_log = 3; o.max_depth = 4; if (i % 25 == 3) { o.max_log = 6; o.max_depth = 4; } if (i % 25 == 5) { o.max_log = 2; o.max_depth = 10; } if (i % 400 == 13) { o.max_log = 9; o.max_depth = 3; } if (i % 100 == 23) { o.max_log = 1; o.max_depth = 2; }
  Case k = gen(r, o); circ::Case &c = k.c;
  c.kv["kind"] = std::vector<int>{1, 2, 3, 4, 5, 6, 7}[r.weighted({2, 14, 4, 8, 1, 2, 2})];
  c.kv["dk"] = r.range(0, 8); c.kv["opos"] = r.range(0, 1 << 20); c.kv["shape"] = r.range(0, 7); c.kv["absorb"] = r.range(0, 14); c.kv["side"] = r.range(0, 9);
  long nc = n_checks(c.L), nm = n_msgs(c.L); c.kv["loc"] = r.chance(1, 3) ? -1 : r.chance(1, 3) ? nc - 1 - r.range(0, std::min(nc - 1, 12L)) : r.range(0, nc - 1);
  c.kv["tloc"] = r.chance(1, 4) ? nm - 1 - r.range(0, std::min(nm - 1, 40L)) : r.range(0, nm - 1); c.kv["skipo"] = r.range(0, 1); c.kv["tcomp"] = r.range(0, 5); c.kv["mseed"] = r.range(1, 1 << 30);
  return ser(k);
}
static circ::GenOpt opt_of(long i) {
  circ::GenOpt o; o.max_log = 4; o.max_depth = 4; o.wide_inputs = true;
  if (i % 40 == 7) { o.max_log = 7; o.max_depth = 4; } if (i % 40 == 11) { o.max_log = 2; o.max_depth = 12; } if (i % 500 == 29) { o.max_log = 1; o.min_depth = 40; o.max_depth = 80; } if (i % 400 == 13) { o.max_log = 10; o.max_depth = 3; } if (i % 100 == 23) { o.max_log = 1; o.max_depth = 2; }
  return o;
}
static std::string gen_plain(pbt::Rng &r, long i) { return ser(gen(r, opt_of(i))); }
static std::string gen_layout(pbt::Rng &r, long i) { Case k = gen(r, opt_of(i)); k.c.kv["lseed"] = r.range(1, 1 << 30); return ser(k); }
// every message is part of the transcript before the next challenge is drawn, nothing else is, and each challenge comes from there, late enough and once
static pbt::Result check_record(const std::string &doc) {
  pbt::Result r; Case k = deser(doc); describe(k, r); r.nontrivial = nlive(k.c.L) >= 1;
  srand((unsigned)k.c.seed); Session s; Rec rec; s.rec = &rec; std::vector<container> msg; s.after = [&](proof_transcript &t) { msg = t.msg; };
  if (!session(k, s)) { r.fail("the verifier rejected the honest prover"); return r; }
  std::vector<std::string> key; std::vector<char> rnd; for (auto &c : msg) { rnd.push_back(c.indicator == container::randomness_indicator); key.push_back(c.indicator == container::curve_ele_indicator ? ckey(c.curve_ele) : fkey(fe::get(c.fld_ele))); }
  size_t n = msg.size(); std::vector<size_t> seg(n + 1, 0); { size_t g = 0; bool in = false; for (size_t i = 0; i < n; ++i) { if (rnd[i]) { if (in || i == 0 || !rnd[i - 1]) {} in = false; } else if (!in) { in = true; ++g; } seg[i] = rnd[i] ? 0 : g; } }
  std::vector<char> used(n, 0); size_t nreq = 0;
  for (int pass = 0; pass < 2; ++pass) for (auto &e : rec.ev) if (e.optional == (pass == 1)) {
    size_t a = e.at, b = e.at; while (a > 0 && !rnd[a - 1]) --a; while (b < n && !rnd[b]) ++b; bool found = false;
    for (size_t i = a; i < b && !found; ++i) if (!used[i] && key[i] == e.key) { used[i] = 1; found = true; }
    if (!e.optional) ++nreq;
    if (!found && !e.optional) { r.fail("a prover message (" + e.name + ", layer " + std::to_string(e.layer) + ") is not in the transcript when the next challenge is drawn"); return r; }
  }
  for (size_t i = 0; i < n; ++i) if (!rnd[i] && !used[i]) { r.fail("transcript entry " + std::to_string(i) + " is not a message of the prover"); return r; }
  std::map<std::string, size_t> pos; for (size_t i = 0; i < n; ++i) if (rnd[i]) { if (pos.count(key[i])) { r.fail("two challenges are equal"); return r; } pos[key[i]] = i; }
  { fresh::Vals v; for (size_t i = 0; i < n; ++i) if (rnd[i]) v.push_back({"challenge " + std::to_string(i), mpz_class(key[i].substr(1))}); if (!fresh::plain(v, r)) return r; }
  std::map<size_t, std::string> taken;
  for (auto &c : rec.ch) {
    std::string who = c.name + " of layer " + std::to_string(c.layer); auto it = pos.find(fkey(c.z));
    if (it == pos.end()) { r.fail("challenge " + who + " was not drawn from the transcript"); return r; }
    if (it->second < c.not_before) { r.fail("challenge " + who + " was drawn before the messages of the stage before it"); return r; }
    std::string id = who; if (taken.count(it->second) && !(c.name == "r_c" && taken[it->second] == id)) { r.fail("challenge " + who + " is the same draw as " + taken[it->second]); return r; } taken[it->second] = id;
  }
  // the proof file holds exactly the messages
  std::string f = pbt::read_file("proof.bin"), w; { std::vector<bool> bits; for (size_t i = 0; i < n; ++i) if (!rnd[i]) { auto o = msg[i].output(); bits.insert(bits.end(), o.begin(), o.end()); } w.assign((bits.size() + 7) / 8, 0); for (size_t i = 0; i < bits.size(); ++i) if (bits[i]) w[i / 8] = (char)(w[i / 8] | 1 << (i % 8)); }
  if (f != w) r.fail("the proof file does not hold the messages of the session");
  r.label("messages_" + std::string(nreq < 100 ? "under_100" : nreq < 300 ? "under_300" : "300_or_more"));
  return r;
}
// ---- the masks hide: with the challenges chosen in advance, what the verifier sees depends on the masks with full rank
static size_t rank_of(std::vector<Vz> m) {
  size_t rk = 0, cols = m.empty() ? 0 : m[0].size();
  for (size_t c = 0; c < cols && rk < m.size(); ++c) {
    size_t p = rk; while (p < m.size() && m[p][c] == 0) ++p; if (p == m.size()) continue; std::swap(m[p], m[rk]); mpz_class iv = inv(m[rk][c]);
    for (size_t i = rk + 1; i < m.size(); ++i) if (m[i][c] != 0) { mpz_class f = md(m[i][c] * iv); for (size_t j = c; j < cols; ++j) m[i][j] = md(m[i][j] - f * m[rk][j]); }
    ++rk;
  }
  return rk;
}
static pbt::Result check_hide(const std::string &doc) {
  pbt::Result r; Case k = deser(doc); describe(k, r); r.nontrivial = nlive(k.c.L) >= 1;
  int D = (int)k.c.L.size(), i = 1 + (int)(k.c.get("hlayer") % D), fam = (int)(k.c.get("family") % 2), n = bitlen(k.c.L, i - 1);
  int hook = fam == 0 ? 2 * i + 1 : i == 1 ? 0 : 2 * i; size_t want = fam == 0 ? 4 * n + 9 : i == 1 ? 1 : 4;
  std::vector<Vz> views;
  for (size_t t = 0; t < want + 3; ++t) {
    Session s; Rec rec; s.rec = &rec; s.fixed = true; s.base = k.c.seed; s.frng = pbt::Rng((uint64_t)k.c.seed * 31 + 7); s.vary_hook = hook; s.vary = (long)t + 1; srand((unsigned)k.c.seed);
    if (!session(k, s)) { r.fail("the verifier rejected the honest prover"); return r; }
    Vz v; for (auto &e : rec.ev) {
      if (fam == 0) { if (e.layer == i && (e.name == "mask sum" || e.name.compare(0, 5, "phase") == 0 || e.name == "last round message")) v.push_back(e.z); }
      else if (i == 1) { if (e.layer == 1 && e.name == "claim") { v.push_back(e.z); break; } }
      else if ((e.layer == i && e.name == "claim") || (e.layer == i - 1 && e.name == "opening of mask R" && e.optional)) v.push_back(e.z); }
    views.push_back(v);
  }
  for (size_t t = 1; t < views.size(); ++t) for (size_t j = 0; j < views[t].size(); ++j) views[t][j] = md(views[t][j] - views[0][j]);
  views.erase(views.begin()); size_t got = rank_of(views);
  r.label(fam == 0 ? "round_messages" : i == 1 ? "input_claim" : "layer_claims");
  if (got < want) r.fail(std::string(fam == 0 ? "the round messages and mask sum" : i == 1 ? "the claim about the input" : "the claims and the openings of their mask") + " of layer " + std::to_string(i) + " depend on the masks with rank " + std::to_string(got) + ", hiding needs " + std::to_string(want));
  return r;
}
// masks: each wide, drawn anew, from draws of its own
static pbt::Result check_masks(const std::string &doc) {
  pbt::Result r; Case k = deser(doc); describe(k, r); r.nontrivial = nlive(k.c.L) >= 1; pbt::Rng q((uint64_t)k.c.seed);
  fresh::judge([&]() { fresh::Vals v; Session s; s.masks = &v; session(k, s); return v; }, (uint64_t)k.c.seed, false, q, r, false, 5); return r;
}
static std::string gen_hide(pbt::Rng &r, long i) {
  circ::GenOpt o; o.wide_inputs = true; o.max_log = 3; o.max_depth = 3; if (i % 25 == 3) { o.max_log = 5; o.max_depth = 3; } if (i % 25 == 5) { o.max_log = 2; o.max_depth = 7; }
  Case k = gen(r, o); k.c.kv["hlayer"] = r.range(0, 1000); k.c.kv["family"] = r.chance(1, 3) ? 1 : 0; return ser(k);
}
}  // namespace zh
int main(int argc, char **argv) {
  using namespace zh;
  fe::init();
  std::vector<pbt::Mode> m;
  m.push_back({"zk_complete", "at least three live gates", gen_plain, check_complete, shrink});
  m.push_back({"zk_layout", "at least three live gates; circuit and structure files written with random spacing, line breaks and zero padding", gen_layout, check_complete, shrink});
  m.push_back({"zk_sound", "the claimed output is not the output of the committed inputs, or exactly one prover message was altered", gen_sound, check_sound, shrink});
  m.push_back({"zk_record", "at least one live gate", gen_plain, check_record, shrink});
  m.push_back({"zk_hide", "at least one live gate", gen_hide, check_hide, shrink});
  m.push_back({"zk_masks", "at least one live gate; every mask of the session is collected", gen_hide, check_masks, shrink});
  return pbt::main_(argc, argv, m);
}
