// Linear-time GKR (src/linear_gkr/{prover,verifier}_fast_track.cpp): evaluation, completeness, soundness.
// The verifier under test is compiled from /repo with its prover type replaced by a subclass that can cheat.
#include <chrono>
#include <iostream>
#include <string>
#include <cstring>
#include <utility>
#include <vector>
#include <unordered_map>
#include "circ.h"
#include "fe.h"
#include "fresh.h"
#include "linear_gkr/prover_fast_track.h"
namespace vh {
using circ::md; using circ::inv; using fe::F;

struct Session {   // what the adversary knows and does in one run
  circ::Layers L;  // the statement, as in the file
  std::vector<std::vector<mpz_class>> ref;   // reference values per file layer
  int kind = 0;    // 0 honest, 1 output lie only, 2 adaptive, 3 wrong circuit, 4 one tampered message, 5 output lie hidden by the prover-side output evaluation
  long long loc = -1, shape = 0, absorb = 0, dk = 0, opos = 0, tloc = -1, tcomp = 0;
  long check_no = 0;     // running number of the current verifier check
  long msg_no = 0;
  bool dropped = false;
  std::vector<mpz_class> true_out, claimed_out;
  bool tampered = false;
  // running state of the adaptive adversary
  mpz_class Sv, Sh; // verifier's claim and the sum the honest messages would have
  mpz_class alpha, beta; std::vector<mpz_class> r0, r1, ru, rv; int layer = 0; mpz_class dr, prev;
  mpz_class last_d0, last_d1, last_d2; bool have_last = false; mpz_class ha, hb, hc;
  pbt::Rng rng{1};
  fresh::Vals *fresh = nullptr;   // challenges, each once
};
static Session *S;

static int bitlen(const circ::Layers &L, int i) { // i = internal layer; internal 0,1 = file layer 0
  size_t n = circ::padded(L[i <= 1 ? 0 : i - 1].size()); int b = 0; while ((1u << b) < n) ++b; return b;
}
static std::vector<mpz_class> eqtab(const std::vector<mpz_class> &r) {
  std::vector<mpz_class> t{1}; for (size_t i = 0; i < r.size(); ++i) { std::vector<mpz_class> n(t.size() * 2); for (size_t j = 0; j < t.size(); ++j) { n[j | (1u << i)] = md(t[j] * r[i]); n[j] = md(t[j] * (1 - r[i])); } t = n; } return t;
}
static mpz_class mle(const std::vector<mpz_class> &v, const std::vector<mpz_class> &r) { auto e = eqtab(r); mpz_class s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i] * e[i]; return md(s); }
// layer relation at (r_u,r_v): c00 + c10 vu + c01 vv + c11 vu vv
static void semi(const circ::Layers &L, int i, const Session &s, mpz_class c[4]) {
  for (int k = 0; k < 4; ++k) c[k] = 0;
  auto bu = eqtab(s.ru), bv = eqtab(s.rv);
  if (i == 1) { c[1] = s.dr; return; }
  auto g0 = eqtab(s.r0), g1 = eqtab(s.r1);
  const auto &l = L[i - 1];
  for (size_t g = 0; g < l.size(); ++g) {
    mpz_class w = md(s.alpha * g0[g] + s.beta * g1[g]); const auto &x = l[g];
    if (x.ty == 2) continue;
    mpz_class w2 = (x.ty == 5) ? mpz_class(0) : md(w * bu[x.u] * bv[x.ty == 6 || x.ty == 10 ? 0 : x.v]);
    switch (x.ty) {
      case 0: c[1] += w2; c[2] += w2; break;
      case 1: c[3] += w2; break;
      case 5: for (long long j = x.u; j < x.v; ++j) c[1] += w * bu[j] * bv[0]; break;
      case 6: c[0] += w2; c[1] -= w2; break;
      case 7: c[1] += w2; c[2] -= w2; break;
      case 8: c[1] += w2; c[2] += w2; c[3] -= 2 * w2; break;
      case 9: c[2] += w2; c[3] -= w2; break;
      case 10: c[1] += w2; break;
    }
  }
  for (int k = 0; k < 4; ++k) c[k] = md(c[k]);
}

class cheat_prover : public prover {
public:
  layered_circuit own; bool has_own = false;
  void free_own() { if (has_own) { for (int i = 0; i < own.total_depth; ++i) delete[] own.circuit[i].gates; delete[] own.circuit; has_own = false; } }
  template <class... A> auto evaluate(A &&... a) -> decltype(prover::evaluate(std::forward<A>(a)...)) {
    auto out = prover::evaluate(std::forward<A>(a)...);
    size_t n = circ::padded(S->L.back().size());
    S->true_out.clear(); S->claimed_out.clear();
    for (size_t i = 0; i < n; ++i) S->true_out.push_back(fe::get(out[i]));
    if (S->kind == 1 || S->kind == 2 || S->kind == 5) {
      mpz_class d = fe::delta(S->dk, S->rng); size_t p = (size_t)(S->opos % (long long)n);
      auto *fake = new prime_field::field_element[n];
      for (size_t i = 0; i < n; ++i) fake[i] = out[i];
      fake[p] = fe::put(S->true_out[p] + d);
      S->claimed_out = S->true_out; S->claimed_out[p] = md(S->true_out[p] + d);
      leak = fake; honest = out;
      return fake;
    }
    S->claimed_out = S->true_out;
    return out;
  }
  prime_field::field_element *leak = nullptr, *honest = nullptr;
  template <class A, class B, class C_, class... R> auto V_res(A &&a, B &&b, C_ &&c, R &&... r) -> decltype(prover::V_res(a, b, c, r...)) {
    if (S->kind == 5) return prover::V_res(a, b, honest, r...);
    return prover::V_res(a, b, c, r...);
  }
  template <class A, class B, class C_, class D, class E, class... R>
  void sumcheck_init(int layer_id, A &&bg, B &&bu, C_ &&bv, D &&al, E &&be, const F *R0, const F *R1, R &&... rest) {
    prover::sumcheck_init(layer_id, bg, bu, bv, al, be, R0, R1, rest...);
    S->layer = layer_id; S->alpha = fe::get(al); S->beta = fe::get(be);
    auto pu = S->ru, pv = S->rv;
    S->r0.clear(); S->r1.clear(); S->ru.clear(); S->rv.clear();
    int lg = bitlen(S->L, layer_id);
    for (int i = 0; i < lg; ++i) { S->r0.push_back(fe::get(R0[i])); S->r1.push_back(fe::get(R1[i])); }
    if (S->fresh) { bool top = layer_id == (int)S->L.size(); if (!top) { S->fresh->push_back({nm("alpha"), S->alpha}); S->fresh->push_back({nm("beta"), S->beta}); } else { add("r_0", S->r0); if (S->beta != 0) add("r_1", S->r1); } }
    if (S->kind == 2) {
      if (layer_id == (int)S->L.size()) {  // top
        S->Sv = md(S->alpha * mle(S->claimed_out, S->r0)); S->Sh = md(S->alpha * mle(S->true_out, S->r0));
        if (S->beta != 0) { S->Sv = md(S->Sv + S->beta * mle(S->claimed_out, S->r1)); S->Sh = md(S->Sh + S->beta * mle(S->true_out, S->r1)); }
      } else {
        S->Sv = md(S->alpha * fvu + S->beta * fvv); S->Sh = md(S->alpha * hvu + S->beta * hvv);
      }
      S->have_last = false; S->prev = 0;
    }
  }
  static std::string nm(const char *w, long i = -1) { return std::string("challenge ") + w + (i < 0 ? "" : "[" + std::to_string(i) + "]") + " of layer " + std::to_string(S->layer); }
  static void add(const char *w, const std::vector<mpz_class> &v) { for (size_t i = 0; i < v.size(); ++i) S->fresh->push_back({nm(w, (long)i), v[i]}); }
  mpz_class fvu, fvv, hvu, hvv;
  bool at_drop() { return S->check_no == S->loc; }
  // returns correction polynomial with d(0)+d(1) = delta
  void corr(const mpz_class &delta, int j, bool ph2, mpz_class d[3]) {
    mpz_class g; bool root = true;
    switch (S->shape) {
      case 1: g = 0; break; case 2: g = 1; break;
      case 4: g = S->prev; break;
      case 5: g = j < (int)S->r0.size() ? S->r0[j] : mpz_class(0); break;
      case 6: g = ph2 ? S->ru[j] : (j < (int)S->r1.size() ? S->r1[j] : mpz_class(1)); break;
      default: root = false; g = 0;
    }
    d[0] = d[1] = d[2] = 0;  // coefficient of x^2, x, 1
    if (root && md(1 - 2 * g) == 0) root = false;
    if (root) { mpz_class c = md(delta * inv(1 - 2 * g)); d[1] = c; d[2] = md(-c * g); return; }
    if (S->shape == 3) { d[0] = delta; return; }
    if (S->shape == 7) { d[0] = fe::rnd(S->rng); d[1] = fe::rnd(S->rng); d[2] = md((delta - d[0] - d[1]) * inv(2)); return; }
    d[2] = md(delta * inv(2));
  }
  template <class Q> void process(Q &q, const mpz_class &prev_rand, int j, bool ph2) {
    if (S->kind == 4) {
      if (S->msg_no++ == S->tloc) { mpz_class d = fe::delta(S->dk, S->rng); auto &t = S->tcomp % 3 == 0 ? q.a : S->tcomp % 3 == 1 ? q.b : q.c; t = fe::put(fe::get(t) + d); S->tampered = true; }
      return;
    }
    if (S->kind != 2) return;
    if (S->have_last) { // fold the previous round
      mpz_class x = prev_rand; mpz_class h = md(S->ha * x * x + S->hb * x + S->hc), d = md(S->last_d0 * x * x + S->last_d1 * x + S->last_d2);
      S->Sh = md(h + dr2()); S->Sv = md(S->Sh + d);
    }
    S->prev = prev_rand;
    mpz_class delta = md(S->Sv - S->Sh); mpz_class d[3] = {0, 0, 0};
    if (at_drop()) S->dropped = true;
    if (!S->dropped && delta != 0) corr(delta, j, ph2, d);
    S->check_no++;
    S->ha = fe::get(q.a); S->hb = fe::get(q.b); S->hc = fe::get(q.c);
    S->last_d0 = d[0]; S->last_d1 = d[1]; S->last_d2 = d[2]; S->have_last = true;
    q.a = fe::put(S->ha + d[0]); q.b = fe::put(S->hb + d[1]); q.c = fe::put(S->hc + d[2]);
  }
  mpz_class dr2() { return inph2 && S->layer == 1 ? md(S->dr * fe::get(v_u)) : mpz_class(0); }
  bool inph2 = false;
  template <class A, class... R> quadratic_poly sumcheck_phase1_update(A &&pr, int j, R &&... r) {
    inph2 = false;
    quadratic_poly q = prover::sumcheck_phase1_update(pr, j, r...);
    if (S->kind >= 2) process(q, j == 0 ? mpz_class(0) : fe::get(pr), j, false);
    return q;
  }
  template <class A, class... R> void sumcheck_phase2_init(A &&pr, const F *r_u, R &&... r) {
    prover::sumcheck_phase2_init(pr, r_u, r...);
    int lu = bitlen(S->L, S->layer - 1); S->ru.clear(); for (int i = 0; i < lu; ++i) S->ru.push_back(fe::get(r_u[i]));
    S->rv.clear();
    S->dr = 0;
    if (S->layer == 1) { auto e0 = eqtab(S->r0), e1 = eqtab(S->r1), eu = eqtab(S->ru); mpz_class s = 0; for (size_t i = 0; i < eu.size(); ++i) s += (S->alpha * e0[i] + S->beta * e1[i]) * eu[i]; S->dr = md(s); }
    true_vu = fe::get(v_u);
    if (S->kind == 2 && S->have_last) {
      mpz_class x = S->ru.back(); S->Sh = md(S->ha * x * x + S->hb * x + S->hc); S->Sv = md(S->Sh + S->last_d0 * x * x + S->last_d1 * x + S->last_d2); S->have_last = false;
      S->prev = 0;
      if (S->layer == 1 && !S->dropped && S->dr != 0) {
        mpz_class delta = md(S->Sv - S->Sh);
        if (S->absorb % 4 == 0) v_u = fe::put(true_vu + delta * inv(S->dr));             // lie about V(r_u): must be caught by the input check
        else if (S->absorb % 4 == 1) { v_u = fe::put(true_vu - delta * inv(S->dr)); tricky = true; } // change the answer half-way through phase 2
        mpz_class now = md(S->dr * fe::get(v_u)); S->Sh = now;                            // sum the (all zero) honest phase-2 messages would have
      }
    }
    inph2 = true;
  }
  mpz_class true_vu; bool tricky = false;
  template <class A, class... R> quadratic_poly sumcheck_phase2_update(A &&pr, int j, R &&... r) {
    quadratic_poly q = prover::sumcheck_phase2_update(pr, j, r...);
    if (j > 0) S->rv.push_back(fe::get(pr));
    if (S->kind >= 2) {
      if (tricky && S->layer == 1 && j == 0) {
        // q = delta (constant) with V' = V - delta/dr, so that q(0)+q(1)+dr V' = S and q(r)+dr V' = dr V
        mpz_class delta = md(S->dr * (true_vu - fe::get(v_u)));
        S->check_no++; S->ha = S->hb = S->hc = 0; S->last_d0 = S->last_d1 = 0; S->last_d2 = delta; S->have_last = true;
        q.c = fe::put(delta); return q;
      }
      if (tricky && S->layer == 1 && j == 1) { v_u = fe::put(true_vu); S->have_last = false; S->Sh = S->Sv = md(S->dr * true_vu); }
      process(q, j == 0 ? mpz_class(0) : fe::get(pr), j, true);
    }
    return q;
  }
  template <class A, class... R> std::pair<F, F> sumcheck_finalize(A &&pr, R &&... r) {
    S->rv.push_back(fe::get(pr));
    if (S->fresh) { add("r_u", S->ru); add("r_v", S->rv); }
    mpz_class claimed_vu = fe::get(v_u);
    std::pair<F, F> fc = prover::sumcheck_finalize(pr, r...);
    if (S->kind == 4) { if (S->msg_no++ == S->tloc) { mpz_class d = fe::delta(S->dk, S->rng); if (S->layer == 1 || S->tcomp % 2 == 0) fc.first = fe::put(fe::get(fc.first) + d); else fc.second = fe::put(fe::get(fc.second) + d); S->tampered = true; } return fc; }
    if (S->kind != 2) return fc;
    hvu = S->layer == 1 ? true_vu : fe::get(fc.first); hvv = fe::get(fc.second); fvu = fe::get(fc.first); fvv = hvv;
    if (S->have_last) { mpz_class x = S->rv.back(), d = md(S->last_d0 * x * x + S->last_d1 * x + S->last_d2); S->Sh = md(S->ha * x * x + S->hb * x + S->hc + dr2()); S->Sv = md(S->Sh + d); S->have_last = false; }
    inph2 = false;
    if (at_drop()) S->dropped = true;
    S->check_no++;
    if (S->layer == 1) {
      if (tricky) { fvu = true_vu; tricky = false; }
      else if (!S->dropped && S->dr != 0 && S->absorb % 4 == 2) fvu = md(S->Sv * inv(S->dr));   // repair the layer relation only at the very end
    } else if (!S->dropped && S->Sv != S->Sh) {
      mpz_class c[4]; semi(S->L, S->layer, *S, c);
      auto solve_v = [&]() { mpz_class b = md(c[2] + c[3] * hvu); if (b == 0) return false; fvv = md((S->Sv - c[0] - c[1] * hvu) * inv(b)); return true; };
      auto solve_u = [&]() { mpz_class b = md(c[1] + c[3] * hvv); if (b == 0) return false; fvu = md((S->Sv - c[0] - c[2] * hvv) * inv(b)); return true; };
      auto solve_both = [&](mpz_class du, mpz_class dv) { // (vu + t du, vv + t dv): c3 du dv t^2 + (...) t = Sv - Sh
        mpz_class qa = md(c[3] * du * dv), B = md(c[1] * du + c[2] * dv + c[3] * (hvu * dv + hvv * du)), Cc = md(c[0] + c[1] * hvu + c[2] * hvv + c[3] * hvu * hvv - S->Sv), t;
        if (qa == 0) { if (B == 0) return false; t = md(-Cc * inv(B)); } else { mpz_class sq; if (!fe::msqrt(md(B * B - 4 * qa * Cc), sq)) return false; t = md((sq - B) * inv(2 * qa)); }
        fvu = md(hvu + t * du); fvv = md(hvv + t * dv); return true; };
      bool done = false;
      switch (S->absorb % 6) { case 0: case 1: done = solve_v(); break; case 2: done = solve_u(); break; case 3: done = solve_both(1, -1); break; case 4: done = solve_both(S->beta, md(-S->alpha)); break; default: { mpz_class t = fe::rnd(S->rng); done = solve_both(1, t); } }
      if (!done) done = solve_v(); if (!done) done = solve_u();
    }
    fc.first = fe::put(fvu); fc.second = fe::put(fvv); v_u = fc.first; v_v = fc.second;
    return fc;
  }
  template <class T> void get_circuit(const T &from) {
    free_own();
    // an own copy, so that the prover's (possibly wrong) circuit is not the verifier's
    own.total_depth = from.total_depth; own.circuit = new layer[from.total_depth]; has_own = true;
    for (int i = 0; i < from.total_depth; ++i) {
      own.circuit[i] = from.circuit[i]; size_t n = (size_t)1 << from.circuit[i].bit_length; own.circuit[i].gates = new gate[n];
      for (size_t j = 0; j < n; ++j) own.circuit[i].gates[j] = from.circuit[i].gates[j];
    }
    prover::get_circuit(own);
  }
  void reset() { delete[] leak; leak = nullptr; honest = nullptr; inph2 = false; tricky = false; }
};
}  // namespace vh
#define prover vh::cheat_prover
#include "linear_gkr/verifier_fast_track.h"
#include SRC_VERIFIER
#undef prover
namespace vh {

static cheat_prover P_; 
struct Run { bool accepted; };
static verifier *shared_v = nullptr;   // non-null: sessions reuse one verifier object
static Run session(const circ::Layers &L, Session &s, std::function<void(layered_circuit &)> mutate = nullptr, const std::string *text = nullptr, bool from_string = false) {
  S = &s; s.L = L; P_.reset();
  fe::MemFile mf(text ? *text : circ::to_file(L));
  verifier fresh; verifier &v = shared_v ? *shared_v : fresh; P_.total_time = 0; v.get_prover(&P_);
  if (from_string) { std::vector<char> b(text->begin(), text->end()); b.push_back(0); v.read_circuit_from_string(b.data()); } else v.read_circuit(mf.path.c_str());
  P_.get_circuit(v.C);
  if (mutate) mutate(P_.own);
  Run r; r.accepted = v.verify();
  return r;
}
static std::string outs(const std::vector<mpz_class> &v) { std::string o; for (auto &x : v) o += x.get_str() + " "; return o; }
static int nlive(const circ::Layers &L) { int n = 0; for (size_t i = 1; i < L.size(); ++i) for (auto &g : L[i]) n += g.ty != 2; return n; }

static pbt::Result check_complete(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r);
  r.nontrivial = c.L.size() >= 3 && nlive(c.L) >= 3;
  srand((unsigned)c.seed); Session s; Run x = session(c.L, s);
  if (!x.accepted) r.fail("the verifier rejected the honest prover");
  return r;
}
static pbt::Result check_eval(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r);
  r.nontrivial = c.L.size() >= 3 && nlive(c.L) >= 3;
  srand((unsigned)c.seed); Session s; session(c.L, s); auto ref = circ::eval(c.L);
  if (s.true_out != ref.back()) r.fail("outputs differ from the reference evaluation: got " + outs(s.true_out) + "expected " + outs(ref.back()));
  // inner layers, as the prover holds them (internal layer i+1 is file layer i)
  for (auto &z : s.true_out) if (z < 0 || z >= circ::P()) r.fail("an output is not a canonical field element");
  if (!fe::vres_ok(static_cast<::prover &>(P_), s.true_out, 0, (uint64_t)c.seed)) r.fail("the prover's value of the output polynomial at a point is not that of its multilinear extension");
  return r;
}
static long n_checks(const circ::Layers &L) { long n = 0; for (int i = (int)L.size(); i >= 1; --i) n += 2 * bitlen(L, i - 1) + 1; return n + 1; }

static pbt::Result check_sound(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r);
  auto ref = circ::eval(c.L);
  Session s; s.kind = (int)c.get("kind"); s.rng = pbt::Rng((uint64_t)c.seed * 77 + 5);
  s.shape = c.get("shape"); s.absorb = c.get("absorb"); s.dk = c.get("dk"); s.opos = c.get("opos"); s.tcomp = c.get("tcomp");
  long nc = n_checks(c.L);
  s.loc = c.get("loc") < 0 ? -1 : c.get("loc") % nc;
  if (s.kind == 4) s.tloc = c.get("tloc") % (nc - 1);
  srand((unsigned)c.seed);
  std::function<void(layered_circuit &)> mut;
  if (s.kind == 3) {
    mut = [&](layered_circuit &o) {
      pbt::Rng q((uint64_t)c.get("mseed")); int i = (int)q.range(0, o.total_depth - 1); if (i == 1) i = 0; if (c.get("mlayer") >= 0) i = c.get("mlayer") % o.total_depth == 1 ? 0 : (int)(c.get("mlayer") % o.total_depth);
      size_t n = c.L[i <= 1 ? 0 : i - 1].size(); size_t j = (size_t)q.range(0, (long long)n - 1); auto &g = o.circuit[i].gates[j];
      if (i == 0) { if (g.ty == 2) g.ty = 3; g.u = (int)(g.u ^ (1LL << q.range(0, 30))); return; }
      long long pv = (long long)circ::padded(c.L[i - 2].size());
      switch (q.range(0, 3)) {
        case 0: { static const int T[] = {0, 1, 2, 5, 6, 7, 8, 9, 10}; int t = T[q.range(0, 8)]; g.ty = t; if (t == 6 || t == 10) g.v = 0; else if (t != 5 && g.v >= pv) g.v = pv - 1; break; }
        case 1: g.u = (int)q.range(0, pv - 1); break;
        case 2: if (g.ty != 6 && g.ty != 10) g.v = (int)q.range(0, pv - 1); break;
        default: if (g.ty != 5) std::swap(g.u, g.v); if (g.ty == 6 || g.ty == 10) g.v = 0;
      }
    };
  }
  Run x = session(c.L, s, mut);
  bool wrong = s.claimed_out != ref.back();
  bool must_reject = wrong || (s.kind == 4 && s.tampered);
  r.nontrivial = must_reject;
  r.label("adversary_kind_" + std::to_string(s.kind)); if (s.kind == 2) { r.label("shape_" + std::to_string(s.shape)); r.label("absorb_" + std::to_string(s.absorb)); r.label(s.loc < 0 ? "never_drops" : s.loc == nc - 1 ? "drop_at_input_check" : "drops_inside"); }
  if (s.kind == 3) r.label(wrong ? "wrong_circuit_changes_output" : "wrong_circuit_same_output");
  if (must_reject && x.accepted)
    r.fail(wrong ? "the verifier accepted a wrong output (claimed " + outs(s.claimed_out) + "true " + outs(ref.back()) + "; adversary kind " + std::to_string(s.kind) + ")"
                 : "the verifier accepted a transcript with a tampered prover message");
  return r;
}
static circ::GenOpt opt_of(pbt::Rng &r, long i, int maxlog) {
  circ::GenOpt o; o.max_log = maxlog; o.max_depth = 5; if (i % 40 == 7) { o.max_log = 8; o.max_depth = 4; } if (i % 40 == 11) { o.max_log = 2; o.max_depth = 30; } if (i % 400 == 13) { o.max_log = 11; o.max_depth = 3; } if (i % 20000 == 17) { o.max_log = i % 100000 == 17 ? 17 : 15; o.max_depth = 3; } if (i % 1000 == 19) { o.max_log = 1; o.max_depth = 300; o.min_depth = 40; } if (i % 1000 == 23) { o.max_log = 1; o.max_depth = 2; }
  o.wide_inputs = true; o.in_lo = -2147483647LL; (void)r;
  return o;
}
static std::string gen_plain(pbt::Rng &r, long i) { circ::Case c; c.L = circ::gen_layers(r, opt_of(r, i, 5)); c.seed = (long)r.range(1, 1000000000); return circ::ser(c); }
static std::string gen_sound(pbt::Rng &r, long i) {
  circ::Case c; circ::GenOpt o; o.wide_inputs = true; o.max_log = 3; o.max_depth = 4;
  if (i % 25 == 3) { o.max_log = 6; o.max_depth = 4; } if (i % 25 == 5) { o.max_log = 2; o.max_depth = 12; } if (i % 200 == 13) { o.max_log = 9; o.max_depth = 3; } if (i % 4000 == 17) { o.max_log = 13; o.max_depth = 3; } if (i % 1000 == 19) { o.max_log = 1; o.max_depth = 80; o.min_depth = 20; } if (i % 100 == 23) { o.max_log = 1; o.max_depth = 2; }
  c.L = circ::gen_layers(r, o); c.seed = (long)r.range(1, 1000000000);
  c.kv["kind"] = std::vector<int>{1, 2, 3, 4, 5}[r.weighted({2, 14, 5, 3, 1})];
  c.kv["dk"] = r.range(0, 8); c.kv["opos"] = r.range(0, 1 << 20);
  c.kv["shape"] = r.range(0, 7); c.kv["absorb"] = r.range(0, 11);
  long nc = n_checks(c.L); c.kv["loc"] = r.chance(1, 6) ? -1 : r.chance(1, 3) ? nc - 1 - r.range(0, std::min(nc - 1, 12L)) : r.range(0, nc - 1);
  c.kv["tloc"] = r.range(0, nc - 1); c.kv["tcomp"] = r.range(0, 5); c.kv["mseed"] = r.range(1, 1 << 30); c.kv["mlayer"] = r.chance(1, 3) ? 0 : -1;
  return circ::ser(c);
}
// challenges: each one of its own, wide, from draws of its own
static pbt::Result check_fresh(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r); r.nontrivial = c.L.size() >= 2; pbt::Rng q((uint64_t)c.seed);
  fresh::judge([&]() { fresh::Vals v; Session s; s.fresh = &v; session(c.L, s); return v; }, (uint64_t)c.seed, c.get("full") != 0, q, r);
  return r;
}
static std::string gen_fresh(pbt::Rng &r, long i) { circ::Case c; circ::GenOpt o = opt_of(r, i, 5); bool full = i % 4 != 3; if (full) { o = circ::GenOpt(); o.max_log = 2; o.max_depth = 3; } c.L = circ::gen_layers(r, o); c.seed = (long)r.range(1, 1000000000); c.kv["full"] = full; return circ::ser(c); }
// Reader: the same circuit in different concrete layouts (spacing, leading zeros, line breaks) is the same statement.
static pbt::Result check_layout(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r); r.nontrivial = nlive(c.L) >= 2;
  auto ref = circ::eval(c.L); pbt::Rng q((uint64_t)c.get("lseed")); std::string t = circ::layout(c.L, q);
  bool str = c.get("lseed") % 4 == 0; if (str) r.label("read_from_string");
  srand((unsigned)c.seed); Session s; Run x = session(c.L, s, nullptr, &t, str);
  if (s.true_out != ref.back()) r.fail("the circuit read from a re-laid-out file computes " + outs(s.true_out) + "instead of " + outs(ref.back()));
  if (!x.accepted) r.fail("honest proof rejected for a re-laid-out circuit file");
  return r;
}
static std::string gen_layout(pbt::Rng &r, long i) { circ::Case c; c.L = circ::gen_layers(r, opt_of(r, i, 4)); c.seed = (long)r.range(1, 1000000000); c.kv["lseed"] = r.range(1, 1 << 30); return circ::ser(c); }

// Histories: honest and cheating sessions over different circuits, one after another on the same prover and verifier objects.
static std::vector<std::string> split(const std::string &doc) { std::vector<std::string> v; size_t pos = 0; while (pos < doc.size()) { size_t e = doc.find("\n-----\n", pos); if (e == std::string::npos) e = doc.size(); v.push_back(doc.substr(pos, e - pos)); pos = e + 7; } return v; }
static std::string join(const std::vector<std::string> &v) { std::string o; for (size_t i = 0; i < v.size(); ++i) { if (i) o += "\n-----\n"; o += v[i]; } return o; }
static std::string gen_history(pbt::Rng &r, long i) { std::vector<std::string> v; int n = (int)r.range(2, 6); for (int k = 0; k < n; ++k) v.push_back(r.chance(1, 2) ? gen_sound(r, (long)r.range(0, 199999)) : gen_plain(r, (long)r.range(0, 199999))); (void)i; return join(v); }
static pbt::Result check_history(const std::string &doc) {
  pbt::Result r; static verifier V; shared_v = &V; int honest = 0, cheat = 0; auto parts = split(doc);
  for (size_t k = 0; k < parts.size(); ++k) {
    bool h = circ::deser(parts[k]).get("kind") == 0; (h ? honest : cheat)++;
    for (int pass = 0; pass < (h ? 2 : 1); ++pass) { pbt::Result x = !h ? check_sound(parts[k]) : pass ? check_eval(parts[k]) : check_complete(parts[k]); if (!x.ok) r.fail("session " + std::to_string(k + 1) + " of the history: " + x.msg); }
  }
  shared_v = nullptr; r.nontrivial = parts.size() >= 2 && honest >= 1; r.label("sessions_" + std::to_string(parts.size())); if (honest && cheat) r.label("honest_and_cheating_mixed"); return r;
}
static std::vector<std::string> shrink_history(const std::string &doc) {
  auto v = split(doc); std::vector<std::string> out;
  for (size_t i = 0; v.size() > 1 && i < v.size(); ++i) { auto w = v; w.erase(w.begin() + i); out.push_back(join(w)); }
  for (size_t i = 0; i < v.size(); ++i) for (auto &x : circ::shrink_case(v[i])) { auto w = v; w[i] = x; out.push_back(join(w)); }
  return out;
}
}  // namespace vh
int main(int argc, char **argv) {
  using namespace vh;
  fe::init();
  std::vector<pbt::Mode> m;
  m.push_back({"linear_complete", "at least two computing layers and three live gates", gen_plain, check_complete, circ::shrink_case});
  m.push_back({"linear_eval", "at least two computing layers and three live gates", gen_plain, check_eval, circ::shrink_case});
  m.push_back({"linear_sound", "the claimed output differs from the true one, or exactly one prover message was altered", gen_sound, check_sound, circ::shrink_case});
  m.push_back({"linear_layout", "at least two live gates; file written with random spacing, line breaks and zero padding", gen_layout, check_layout, circ::shrink_case});
  m.push_back({"linear_history", "at least two sessions, one of them honest, on the same prover and verifier objects", gen_history, check_history, shrink_history});
  m.push_back({"linear_fresh", "at least one computing layer; every challenge of the session is collected", gen_fresh, check_fresh, circ::shrink_case});
  return pbt::main_(argc, argv, m);
}
