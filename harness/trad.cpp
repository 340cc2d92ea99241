// The two baseline protocols: sequential copies (default) and blocked data-parallel copies (-DBC).
// As in linear.cpp, the verifier from /repo is compiled against a prover subclass that can cheat.
#include <chrono>
#include <iostream>
#include <string>
#include <cstring>
#include <cassert>
#include <utility>
#include <vector>
#include <unordered_map>
#include "circ.h"
#include "fe.h"
#include "fresh.h"
#ifdef BC
#include "traditional_gkr/prover_bc_clogc.h"
#define NAME(x) "bcclogc_" x
#else
#include "traditional_gkr/prover_clogc.h"
#define NAME(x) "bclogc_" x
#endif
namespace vh {
using circ::md; using circ::inv; using fe::F;

struct Session {
  circ::Layers L; int logb = 0; std::vector<std::vector<mpz_class>> in; // per-copy input values
  int kind = 0; long long loc = -1, shape = 0, absorb = 0, dk = 0, opos = 0, tloc = -1, tcomp = 0;
  long check_no = 0, msg_no = 0; bool dropped = false, tampered = false;
  std::vector<mpz_class> true_out, claimed_out;
  mpz_class Sv, Sh, alpha, beta, prev; std::vector<mpz_class> r0, r1, ru, rv, rb0, rb; int layer = 0;
  std::vector<mpz_class> lastd, lasth; bool have_last = false;
  pbt::Rng rng{1};
  fresh::Vals *fresh = nullptr;   // challenges, each once
};
static Session *S;
static int bl(int i) { size_t n = circ::padded(S->L[i].size()); int b = 0; while ((1u << b) < n) ++b; return b; }
static std::vector<mpz_class> eqtab(const std::vector<mpz_class> &r) {
  std::vector<mpz_class> t{1}; for (size_t i = 0; i < r.size(); ++i) { std::vector<mpz_class> n(t.size() * 2); for (size_t j = 0; j < t.size(); ++j) { n[j | (1u << i)] = md(t[j] * r[i]); n[j] = md(t[j] * (1 - r[i])); } t = n; } return t;
}
static mpz_class mle(const std::vector<mpz_class> &v, const std::vector<mpz_class> &r) { auto e = eqtab(r); mpz_class s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i] * e[i]; return md(s); }
static std::vector<mpz_class> cat(std::vector<mpz_class> a, const std::vector<mpz_class> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static mpz_class ev(const std::vector<mpz_class> &c, const mpz_class &x) { mpz_class s = 0; for (auto &k : c) s = md(s * x + k); return s; }  // high to low

class cheat_prover : public prover {
public:
#ifdef BC
  blocked_circuit own;
#else
  layered_circuit own;
#endif
  bool has_own = false;
  static void copy_lc(layered_circuit &d, const layered_circuit &from) {
    d.total_depth = from.total_depth; d.circuit = new layer[from.total_depth];
    for (int i = 0; i < from.total_depth; ++i) { d.circuit[i] = from.circuit[i]; size_t n = (size_t)1 << from.circuit[i].bit_length; d.circuit[i].gates = new gate[n]; for (size_t j = 0; j < n; ++j) d.circuit[i].gates[j] = from.circuit[i].gates[j]; }
  }
  static void free_lc(layered_circuit &d) { for (int i = 0; i < d.total_depth; ++i) delete[] d.circuit[i].gates; delete[] d.circuit; }
  void free_own() {
    if (!has_own) return; has_own = false;
#ifdef BC
    for (int b = 0; b < own.total_blocks; ++b) free_lc(own.blocks[b]); delete[] own.blocks;
#else
    free_lc(own);
#endif
  }
  template <class T> void get_circuit(const T &from) {
    free_own(); has_own = true;
#ifdef BC
    own = from; own.blocks = new layered_circuit[from.total_blocks]; for (int b = 0; b < from.total_blocks; ++b) copy_lc(own.blocks[b], from.blocks[b]);
#else
    copy_lc(own, from);
#endif
    prover::get_circuit(own);
  }
  std::vector<F> honest; F *keep = nullptr;
  void reset() { keep = nullptr; }
  template <class... A> auto evaluate(A &&... a) -> decltype(prover::evaluate(std::forward<A>(a)...)) {
    auto out = prover::evaluate(std::forward<A>(a)...);
    size_t n = circ::padded(S->L.back().size()) << S->logb;
    S->true_out.clear(); honest.clear();
    for (size_t i = 0; i < n; ++i) { S->true_out.push_back(fe::get(out[i])); honest.push_back(out[i]); }
    S->claimed_out = S->true_out;
    if (S->kind == 1 || S->kind == 2 || S->kind == 5) {
      mpz_class d = fe::delta(S->dk, S->rng); size_t p = (size_t)(S->opos % (long long)n);
      S->claimed_out[p] = md(S->true_out[p] + d);
      F *fake = new F[n]; for (size_t i = 0; i < n; ++i) fake[i] = out[i]; fake[p] = fe::put(S->claimed_out[p]);
#ifdef BC
      delete[] out;
#endif
      return fake;
    }
    return out;
  }
#ifdef BC
  template <class A, class B, class C_, class D, class E, class... R> auto V_res(A &&a, B &&b, C_ &&c, D &&d, E &&e, R &&... r) -> decltype(prover::V_res(a, b, c, d, e, r...)) { if (S->kind == 5) return prover::V_res(a, b, c, d, honest.data(), r...); return prover::V_res(a, b, c, d, e, r...); }
#else
  template <class A, class B, class C_, class... R> auto V_res(A &&a, B &&b, C_ &&c, R &&... r) -> decltype(prover::V_res(a, b, c, r...)) { if (S->kind == 5) return prover::V_res(a, b, honest.data(), r...); return prover::V_res(a, b, c, r...); }
#endif
  static std::string nm(const char *w, long i = -1) { return std::string("challenge ") + w + (i < 0 ? "" : "[" + std::to_string(i) + "]") + " of layer " + std::to_string(S->layer); }
  static void add(const char *w, const std::vector<mpz_class> &v) { for (size_t i = 0; i < v.size(); ++i) S->fresh->push_back({nm(w, (long)i), v[i]}); }
  void start_layer(int layer_id, const F &al, const F &be, const F *R0, const F *R1, const F *RB) {
    S->layer = layer_id; S->alpha = fe::get(al); S->beta = fe::get(be);
    S->r0.clear(); S->r1.clear(); S->rb0.clear(); S->ru.clear(); S->rv.clear(); S->rb.clear();
    int lg = bl(layer_id); for (int i = 0; i < lg; ++i) { S->r0.push_back(fe::get(R0[i])); S->r1.push_back(fe::get(R1[i])); }
    for (int i = 0; i < S->logb; ++i) S->rb0.push_back(fe::get(RB[i]));
    if (S->fresh) { bool top = layer_id == (int)S->L.size() - 1; if (!top) { S->fresh->push_back({nm("alpha"), S->alpha}); S->fresh->push_back({nm("beta"), S->beta}); } else { add("r_0", S->r0); add("r_b", S->rb0); if (S->beta != 0) add("r_1", S->r1); } }
    if (S->kind == 2) {
      if (layer_id == (int)S->L.size() - 1) {
        auto p0 = cat(S->r0, S->rb0), p1 = cat(S->r1, S->rb0);
        S->Sv = md(S->alpha * mle(S->claimed_out, p0)); S->Sh = md(S->alpha * mle(S->true_out, p0));
        if (S->beta != 0) { S->Sv = md(S->Sv + S->beta * mle(S->claimed_out, p1)); S->Sh = md(S->Sh + S->beta * mle(S->true_out, p1)); }
      } else { S->Sv = md(S->alpha * fvu + S->beta * fvv); S->Sh = md(S->alpha * hvu + S->beta * hvv); }
      S->have_last = false; S->prev = 0;
    }
  }
#ifdef BC
  template <class A, class B, class C_, class D, class E, class G, class... R>
  void sumcheck_init(int layer_id, A &&bb, B &&bg, C_ &&bu, D &&bv, E &&al, G &&be, const F *RB, const F *R0, const F *R1, R &&... rest) { prover::sumcheck_init(layer_id, bb, bg, bu, bv, al, be, RB, R0, R1, rest...); start_layer(layer_id, al, be, R0, R1, RB); }
#else
  template <class A, class B, class C_, class D, class E, class... R>
  void sumcheck_init(int layer_id, A &&bg, B &&bu, C_ &&bv, D &&al, E &&be, const F *R0, const F *R1, R &&... rest) { prover::sumcheck_init(layer_id, bg, bu, bv, al, be, R0, R1, rest...); start_layer(layer_id, al, be, R0, R1, nullptr); }
#endif
  mpz_class fvu, fvv, hvu, hvv;
  // correction with d(0)+d(1) = delta; d is high-to-low with n coefficients
  void corr(const mpz_class &delta, int j, int phase, std::vector<mpz_class> &d) {
    int n = (int)d.size(); mpz_class g; bool root = true;
    switch (S->shape) {
      case 1: g = 0; break; case 2: g = 1; break; case 4: g = S->prev; break;
      case 5: { auto &v = phase == 0 ? S->rb0 : S->r0; g = j < (int)v.size() ? v[j] : mpz_class(0); break; }
      case 6: { auto &v = phase == 2 ? S->ru : S->r1; g = j < (int)v.size() ? v[j] : mpz_class(1); break; }
      default: root = false;
    }
    if (root && md(1 - 2 * g) == 0) root = false;
    if (root) { mpz_class c = md(delta * inv(1 - 2 * g)); d[n - 2] = c; d[n - 1] = md(-c * g); return; }
    if (S->shape == 3) { d[0] = delta; return; }
    if (S->shape == 7) { mpz_class s = 0; for (int k = 0; k + 1 < n; ++k) { d[k] = fe::rnd(S->rng); s += d[k]; } d[n - 1] = md((delta - s) * inv(2)); return; }
    d[n - 1] = md(delta * inv(2));
  }
  void fold(const mpz_class &x) { if (!S->have_last) return; S->Sh = ev(S->lasth, x); S->Sv = md(S->Sh + ev(S->lastd, x)); S->have_last = false; }
  void process(std::vector<F *> co, const mpz_class &prev_rand, bool first, int j, int phase) {
    if (S->kind == 4) { if (S->msg_no++ == S->tloc) { mpz_class d = fe::delta(S->dk, S->rng); F *t = co[S->tcomp % co.size()]; *t = fe::put(fe::get(*t) + d); S->tampered = true; } return; }
    if (S->kind != 2) return;
    if (!first) fold(prev_rand);
    S->prev = prev_rand;
    if (S->check_no == S->loc) S->dropped = true;
    std::vector<mpz_class> d(co.size(), 0); mpz_class delta = md(S->Sv - S->Sh);
    if (!S->dropped && delta != 0) corr(delta, j, phase, d);
    S->check_no++;
    S->lasth.clear(); S->lastd = d; for (size_t k = 0; k < co.size(); ++k) { S->lasth.push_back(fe::get(*co[k])); *co[k] = fe::put(S->lasth[k] + d[k]); }
    S->have_last = true;
  }
#ifdef BC
  template <class A, class... R> cubic_poly sumcheck_phase0_update(A &&pr, int j, R &&... r) { cubic_poly q = prover::sumcheck_phase0_update(pr, j, r...); if (j) S->rb.push_back(fe::get(pr)); process({&q.a, &q.b, &q.c, &q.d}, fe::get(pr), j == 0, j, 0); return q; }
  template <class A, class... R> void sumcheck_phase1_init(A &&pr, R &&... r) { prover::sumcheck_phase1_init(pr, r...); if (S->logb) { S->rb.push_back(fe::get(pr)); if (S->kind == 2) fold(fe::get(pr)); } }
#endif
  template <class A, class... R> quadratic_poly sumcheck_phase1_update(A &&pr, int j, R &&... r) { quadratic_poly q = prover::sumcheck_phase1_update(pr, j, r...); if (j) S->ru.push_back(fe::get(pr)); process({&q.a, &q.b, &q.c}, fe::get(pr), j == 0, j, 1); return q; }
  template <class A, class... R> void sumcheck_phase2_init(A &&pr, R &&... r) { prover::sumcheck_phase2_init(pr, r...); S->ru.push_back(fe::get(pr)); if (S->kind == 2) fold(fe::get(pr)); }
  template <class A, class... R> quadratic_poly sumcheck_phase2_update(A &&pr, int j, R &&... r) { quadratic_poly q = prover::sumcheck_phase2_update(pr, j, r...); if (j) S->rv.push_back(fe::get(pr)); process({&q.a, &q.b, &q.c}, fe::get(pr), j == 0, j, 2); return q; }
  template <class A, class... R> std::pair<F, F> sumcheck_finalize(A &&pr, R &&... r) {
    S->rv.push_back(fe::get(pr)); std::pair<F, F> fc = prover::sumcheck_finalize(pr, r...);
    if (S->fresh) { add("next r_b", S->rb); add("r_u", S->ru); add("r_v", S->rv); }
    if (S->kind == 4) { if (S->msg_no++ == S->tloc) { F &t = S->tcomp % 2 ? fc.second : fc.first; t = fe::put(fe::get(t) + fe::delta(S->dk, S->rng)); S->tampered = true; } return fc; }
    if (S->kind != 2) return fc;
    fold(fe::get(pr));
    hvu = fe::get(fc.first); hvv = fe::get(fc.second); fvu = hvu; fvv = hvv;
    if (S->check_no == S->loc) S->dropped = true;
    S->check_no++;
    if (!S->dropped && S->Sv != S->Sh) {
      mpz_class add = 0, mul = 0, eb = 1; auto g0 = eqtab(S->r0), g1 = eqtab(S->r1), bu = eqtab(S->ru), bv = eqtab(S->rv);
      for (size_t g = 0; g < S->L[S->layer].size(); ++g) { auto &x = S->L[S->layer][g]; if (x.ty > 1) continue; mpz_class w = md((S->alpha * g0[g] + S->beta * g1[g]) * bu[x.u] * bv[x.v]); (x.ty ? mul : add) += w; }
      for (int k = 0; k < S->logb; ++k) eb = md(eb * (S->rb0[k] * S->rb[k] + (1 - S->rb0[k]) * (1 - S->rb[k])));
      mpz_class c1 = md(add * eb), c3 = md(mul * eb);
      auto solve_v = [&]() { mpz_class b = md(c1 + c3 * hvu); if (b == 0) return false; fvv = md((S->Sv - c1 * hvu) * inv(b)); return true; };
      auto solve_u = [&]() { mpz_class b = md(c1 + c3 * hvv); if (b == 0) return false; fvu = md((S->Sv - c1 * hvv) * inv(b)); return true; };
      auto solve_both = [&](mpz_class du, mpz_class dv) {
        mpz_class qa = md(c3 * du * dv), qb = md(c1 * (du + dv) + c3 * (hvu * dv + hvv * du)), qc = md(c1 * (hvu + hvv) + c3 * hvu * hvv - S->Sv), t;
        if (qa == 0) { if (qb == 0) return false; t = md(-qc * inv(qb)); } else { mpz_class sq; if (!fe::msqrt(md(qb * qb - 4 * qa * qc), sq)) return false; t = md((sq - qb) * inv(2 * qa)); }
        fvu = md(hvu + t * du); fvv = md(hvv + t * dv); return true; };
      bool done = false;
      switch (S->absorb % 7) {
        case 0: case 1: done = solve_v(); break; case 2: done = solve_u(); break; case 3: done = solve_both(1, -1); break; case 4: done = solve_both(S->beta, md(-S->alpha)); break;
#ifdef BC
        case 6: { mpz_class f = md(add * (hvu + hvv) + mul * hvu * hvv); if (f != 0) { beta_blk_val = fe::put(S->Sv * inv(f)); done = true; } break; }
#endif
        default: done = solve_both(1, fe::rnd(S->rng)); }
      if (!done) done = solve_v(); if (!done) done = solve_u();
    }
    fc.first = fe::put(fvu); fc.second = fe::put(fvv); v_u = fc.first; v_v = fc.second;
    return fc;
  }
};
}  // namespace vh
#define prover vh::cheat_prover
#ifdef BC
#include "traditional_gkr/verifier_bc_clogc.h"
#else
#include "traditional_gkr/verifier_traditional.h"
#endif
#include SRC_VERIFIER
#undef prover
namespace vh {

static cheat_prover P_;
#ifdef BC
typedef blocked_circuit Circ; static layered_circuit &blk(Circ &c, int b) { return c.blocks[b]; }
#else
typedef layered_circuit Circ; static layered_circuit &blk(Circ &c, int) { return c; }
#endif
static bool session(const circ::Case &c, Session &s, std::function<void(Circ &)> mutate = nullptr) {
  S = &s; s.L = c.L; P_.reset();
#ifdef BC
  s.logb = (int)c.get("logb");
#endif
  fe::MemFile mf(circ::text(c));
  verifier v; P_.total_time = 0; v.get_prover(&P_);
#ifdef BC
  v.set_blocks(1 << s.logb, s.logb); v.read_circuit(mf.path.c_str(), 1 << s.logb);
#else
  FILE *f = fopen(mf.path.c_str(), "r"); v.read_circuit_from_FILE(f); fclose(f);
#endif
  // per-copy inputs
  for (int b = 0; b < (1 << s.logb); ++b) { pbt::Rng q((uint64_t)c.get("inseed") + b); bool vary = c.get("vary") && b > 0; for (size_t j = 0; j < c.L[0].size(); ++j) if (c.L[0][j].ty == 3 && vary && q.chance(2, 3)) blk(v.C, b).circuit[0].gates[j].u = q.chance(1, 3) ? q.range(-9, 9) : q.range(0, 2147483647LL); }
  P_.get_circuit(v.C); if (mutate) mutate(P_.own);
  return v.verify();
}
// reference: every copy on its own
static std::vector<mpz_class> reference(const circ::Case &c, int logb) {
  std::vector<mpz_class> out;
  for (int b = 0; b < (1 << logb); ++b) {
    circ::Layers L = c.L; pbt::Rng q((uint64_t)c.get("inseed") + b); bool vary = c.get("vary") && b > 0;
    for (size_t j = 0; j < c.L[0].size(); ++j) if (c.L[0][j].ty == 3 && vary && q.chance(2, 3)) L[0][j].u = q.chance(1, 3) ? q.range(-9, 9) : q.range(0, 2147483647LL);
    auto V = circ::eval(L); out.insert(out.end(), V.back().begin(), V.back().end());
  }
  return out;
}
static std::string outs(const std::vector<mpz_class> &v) { std::string o; for (auto &x : v) o += x.get_str() + " "; return o.substr(0, 1500); }
static int nlive(const circ::Layers &L) { int n = 0; for (size_t i = 1; i < L.size(); ++i) for (auto &g : L[i]) n += g.ty != 2; return n; }
static long n_checks(const circ::Layers &L, int logb) { Session s; s.L = L; S = &s; long n = 0; for (int i = (int)L.size() - 1; i >= 1; --i) n += logb + 2 * bl(i - 1) + 1; return n + 1; }
static void lab(const circ::Case &c, pbt::Result &r) { circ::describe(c.L, r);
#ifdef BC
  r.label("log_copies_" + std::to_string(c.get("logb"))); if (c.get("vary")) r.label("copies_with_different_inputs");
#endif
}
static pbt::Result check_complete(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); lab(c, r); r.nontrivial = c.L.size() >= 3 && nlive(c.L) >= 3;
  srand((unsigned)c.seed); Session s; if (!session(c, s)) r.fail("the verifier rejected the honest prover"); return r;
}
static pbt::Result check_eval(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); lab(c, r); r.nontrivial = c.L.size() >= 3 && nlive(c.L) >= 3;
  srand((unsigned)c.seed); Session s; session(c, s); auto ref = reference(c, s.logb);
  if (s.true_out != ref) r.fail("outputs differ from the reference evaluation: got " + outs(s.true_out) + "expected " + outs(ref));
  if (!fe::vres_ok(static_cast<::prover &>(P_), s.true_out, s.logb, (uint64_t)c.seed)) r.fail("the prover's value of the output polynomial at a point is not that of its multilinear extension"); return r;
}
static pbt::Result check_sound(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); lab(c, r); int logb = 0;
#ifdef BC
  logb = (int)c.get("logb");
#endif
  auto ref = reference(c, logb); long nc = n_checks(c.L, logb);
  Session s; s.kind = (int)c.get("kind"); s.rng = pbt::Rng((uint64_t)c.seed * 77 + 5); s.shape = c.get("shape"); s.absorb = c.get("absorb"); s.dk = c.get("dk"); s.opos = c.get("opos"); s.tcomp = c.get("tcomp");
  s.loc = c.get("loc") < 0 ? -1 : c.get("loc") % nc; if (s.kind == 4) s.tloc = c.get("tloc") % (nc - 1);
  srand((unsigned)c.seed);
  std::function<void(Circ &)> mut;
  if (s.kind == 3) mut = [&](Circ &o) {
    pbt::Rng q((uint64_t)c.get("mseed")); int i = (int)q.range(0, (long long)c.L.size() - 1); if (c.get("mlayer") == 0) i = 0;
    size_t j = (size_t)q.range(0, (long long)c.L[i].size() - 1);
    int k = (int)q.range(0, 2); int one = (int)q.range(0, (1 << logb) - 1); bool all = i > 0 || q.chance(1, 2); long long pv = i ? (long long)circ::padded(c.L[i - 1].size()) : 1, nu = q.range(0, pv - 1), bit = q.range(0, 40);
    for (int b = 0; b < (1 << logb); ++b) { if (!all && b != one) continue; auto &g = blk(o, b).circuit[i].gates[j];
      if (i == 0) { if (g.ty == 2) g.ty = 3; g.u ^= 1LL << bit; } else if (g.ty == 2) { g.ty = 1; g.u = nu; g.v = nu; } else if (k == 0) g.ty ^= 1; else if (k == 1) g.u = nu; else g.v = nu; } };
  bool acc = session(c, s, mut);
  bool wrong = s.claimed_out != ref, must_reject = wrong || (s.kind == 4 && s.tampered);
  r.nontrivial = must_reject; r.label("adversary_kind_" + std::to_string(s.kind));
  if (s.kind == 2) { r.label("shape_" + std::to_string(s.shape)); r.label("absorb_" + std::to_string(s.absorb % 7)); r.label(s.loc < 0 ? "never_drops" : s.loc == nc - 1 ? "drop_at_input_check" : "drops_inside"); }
  if (must_reject && acc) r.fail(wrong ? "the verifier accepted a wrong output (claimed " + outs(s.claimed_out) + "true " + outs(ref) + "; adversary kind " + std::to_string(s.kind) + ")" : "the verifier accepted a transcript with a tampered prover message");
  return r;
}
static circ::GenOpt opts(long i, int ml, int md_) { circ::GenOpt o; o.types = {0, 1, 2}; o.max_log = ml; o.max_depth = md_; o.wide_inputs = true; if (i % 40 == 7) { o.max_log = ml + 3; o.max_depth = 3; } if (i % 40 == 11) { o.max_log = 2; o.max_depth = 20; } if (i % 400 == 13) { o.max_log = ml + 5; o.max_depth = 3; } if (i % 20000 == 17) { o.max_log = ml + 8; o.max_depth = 3; } if (i % 100 == 23) { o.max_log = 1; o.max_depth = 2; } return o; }
static void common(pbt::Rng &r, circ::Case &c) {
  c.seed = (long)r.range(1, 1000000000);
#ifdef BC
  size_t w = 0; for (auto &l : c.L) w += l.size(); c.kv["logb"] = w <= 64 && r.chance(1, 40) ? r.range(4, 8) : r.range(0, 3); c.kv["vary"] = r.chance(2, 3); c.kv["inseed"] = r.range(1, 1 << 30);
#endif
}
static std::string gen_plain(pbt::Rng &r, long i) {
  circ::Case c; c.L = circ::gen_layers(r, opts(i, 4, 5));
#ifndef BC
  if (i % 2000 == 1999) { circ::GenOpt o; o.types = {0, 1, 2}; o.max_log = 1; o.min_depth = 990; o.max_depth = 1200; c.L = circ::gen_layers(r, o); }   // deep circuits
#endif
  common(r, c); return circ::ser(c);
}
static std::string gen_layout(pbt::Rng &r, long i) { circ::Case c = circ::deser(gen_plain(r, i)); c.kv["lseed"] = r.range(1, 1 << 30); return circ::ser(c); }
static pbt::Result check_layout(const std::string &doc) { pbt::Result r = check_eval(doc), q = check_complete(doc); if (r.ok && !q.ok) r.fail(q.msg); return r; }
static std::string gen_sound(pbt::Rng &r, long i) {
  circ::Case c; c.L = circ::gen_layers(r, opts(i, 3, 4)); common(r, c); int logb = (int)c.get("logb");
  c.kv["kind"] = std::vector<int>{1, 2, 3, 4, 5}[r.weighted({2, 14, 5, 3, 1})];
  c.kv["dk"] = r.range(0, 8); c.kv["opos"] = r.range(0, 1 << 20); c.kv["shape"] = r.range(0, 7); c.kv["absorb"] = r.range(0, 13);
  long nc = n_checks(c.L, logb); c.kv["loc"] = r.chance(1, 6) ? -1 : r.chance(1, 3) ? nc - 1 - r.range(0, std::min(nc - 1, 12L)) : r.range(0, nc - 1);
  c.kv["tloc"] = r.range(0, nc - 1); c.kv["tcomp"] = r.range(0, 11); c.kv["mseed"] = r.range(1, 1 << 30); c.kv["mlayer"] = r.chance(1, 3) ? 0 : -1;
  return circ::ser(c);
}
static std::vector<std::string> shr(const std::string &s) {
  auto out = circ::shrink_case(s); circ::Case c = circ::deser(s);
  if (c.get("logb") > 0) { circ::Case d = c; d.kv["logb"] = c.get("logb") - 1; out.insert(out.begin(), circ::ser(d)); }
  if (c.get("vary")) { circ::Case d = c; d.kv["vary"] = 0; out.insert(out.begin(), circ::ser(d)); }
  return out;
}
// challenges: each one of its own, wide, from draws of its own
static pbt::Result check_fresh(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); lab(c, r); r.nontrivial = c.L.size() >= 2; pbt::Rng q((uint64_t)c.seed);
  fresh::judge([&]() { fresh::Vals v; Session s; s.fresh = &v; session(c, s); return v; }, (uint64_t)c.seed, c.get("full") != 0, q, r);
  return r;
}
static std::string gen_fresh(pbt::Rng &r, long i) {
  bool full = i % 4 != 3; circ::Case c = circ::deser(gen_plain(r, full ? i * 2 : i));
  if (full) { circ::GenOpt o; o.types = {0, 1}; o.max_log = 2; o.max_depth = 3; c.L = circ::gen_layers(r, o); if (c.kv.count("logb")) c.kv["logb"] = r.range(0, 2); }
  c.kv["full"] = full; return circ::ser(c);
}
}  // namespace vh
int main(int argc, char **argv) {
  using namespace vh;
  fe::init();
  std::vector<pbt::Mode> m;
  m.push_back({NAME("complete"), "at least two computing layers and three live gates", gen_plain, check_complete, shr});
  m.push_back({NAME("eval"), "at least two computing layers and three live gates", gen_plain, check_eval, shr});
  m.push_back({NAME("layout"), "at least two computing layers and three live gates; file written with random spacing, line breaks and zero padding", gen_layout, check_layout, shr});
  m.push_back({NAME("sound"), "the claimed output differs from the true one, or exactly one prover message was altered", gen_sound, check_sound, shr});
  m.push_back({NAME("fresh"), "at least one computing layer; every challenge of the session is collected", gen_fresh, check_fresh, shr});
  return pbt::main_(argc, argv, m);
}
