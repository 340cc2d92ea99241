// Costs: the number of basic blocks of the repository's code that a session executes (compiler instrumentation, no clock), for the prover
// and for the verifier, when a circuit is made wider by putting copies of it side by side.   -DZK: zero-knowledge program, -DTRAD, -DBC: the baselines
#include <chrono>
#include <iostream>
#include <string>
#include <cstring>
#include <cstdarg>
#include <utility>
#include <vector>
#include <unordered_map>
#include <new>
#include "circ.h"
#include "fe.h"
#ifdef ZK
#include "linear_gkr/zk_prover.h"
#include "linear_gkr/transcript.h"
#elif defined(TRAD)
#include "traditional_gkr/prover_clogc.h"
#elif defined(BC)
#include "traditional_gkr/prover_bc_clogc.h"
#else
#include "linear_gkr/prover_fast_track.h"
#endif
extern "C" { extern unsigned long libra_cost[5]; extern volatile int libra_account; }
// memory: what a session holds at most at one time, beyond what it held before
#include <malloc.h>
static long live_bytes = 0, peak_bytes = 0;
static void *take(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_bytes += (long)malloc_usable_size(p); if (live_bytes > peak_bytes) peak_bytes = live_bytes; return p; }
static void give(void *p) { if (p) live_bytes -= (long)malloc_usable_size(p); free(p); }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }
namespace ch {
using fe::F;
enum { OFF = 0, VERIFIER = 1, PROVER = 2, SETUP = 3, DRAW = 4 };
struct Open { int old; Open(int a) : old(libra_account) { libra_account = a; } ~Open() { libra_account = old; } };
#ifdef ZK
typedef zk_prover base;
#else
typedef prover base;
#endif
class metered : public base {
public:
#define METER(name, account) template <class... A> auto name(A &&... a) -> decltype(base::name(std::forward<A>(a)...)) { Open o(account); return base::name(std::forward<A>(a)...); }
  METER(evaluate, PROVER) METER(V_res, PROVER) METER(sumcheck_phase1_init, PROVER) METER(sumcheck_phase1_update, PROVER)
  METER(sumcheck_phase2_init, PROVER) METER(sumcheck_phase2_update, PROVER) METER(sumcheck_finalize, PROVER)
#ifdef BC
  METER(sumcheck_phase0_init, PROVER) METER(sumcheck_phase0_update, PROVER)
#endif
  METER(init_array, SETUP) METER(proof_init, SETUP) METER(delete_self, SETUP)
#ifdef ZK
  METER(sumcheck_init, SETUP) METER(keygen_and_commit, SETUP) METER(generate_maskpoly_pre_rho, SETUP) METER(generate_maskpoly_after_rho, PROVER)
  METER(sumcheck_phase1_updatelastbit, PROVER) METER(sumcheck_phase2_updatelastbit, PROVER) METER(sumcheck_finalround, PROVER)
  METER(prove_R, SETUP) METER(prove_mask, SETUP) METER(prove_input, SETUP)
#else
  METER(sumcheck_init, PROVER)
#endif
};
}
#ifdef ZK
namespace ch { class quiet : public proof_transcript { public:      // drawing challenges has an account of its own, and no memory is wasted on growing by doubling
  quiet() { msg.reserve(1 << 16); }
  template <class... A> auto random(A &&... a) -> decltype(proof_transcript::random(std::forward<A>(a)...)) { Open o(DRAW); return proof_transcript::random(std::forward<A>(a)...); }
  void output_to_file(const char *f) { Open o(SETUP); proof_transcript::output_to_file((char *)f); }
  template <class... A> auto get_proof_size(A &&... a) -> decltype(proof_transcript::get_proof_size(std::forward<A>(a)...)) { Open o(SETUP); return proof_transcript::get_proof_size(std::forward<A>(a)...); }
 }; }
#define proof_transcript ch::quiet
#define zk_prover ch::metered
#include "linear_gkr/zk_verifier.h"
#include SRC_VERIFIER
#undef zk_prover
#undef proof_transcript
#else
#define prover ch::metered
#ifdef TRAD
#include "traditional_gkr/verifier_traditional.h"
#elif defined(BC)
#include "traditional_gkr/verifier_bc_clogc.h"
#else
#include "linear_gkr/verifier_fast_track.h"
#endif
#include SRC_VERIFIER
#undef prover
#endif
namespace ch {
static int lg(long long n) { int b = 0; while ((1LL << b) < n) ++b; return b; }
static circ::Layers side_by_side(const circ::Layers &B, long long R) {
  circ::Layers L(B.size());
  for (size_t i = 0; i < B.size(); ++i) for (long long k = 0; k < R; ++k) for (auto g : B[i]) {
    long long off = i ? k * (long long)B[i - 1].size() : 0;
    if (i) { if (g.ty == 6 || g.ty == 10) g.u += off; else if (g.ty != 2) { g.u += off; g.v += off; } }
    L[i].push_back(g);
  }
  return L;
}
struct Cost { double prover, verifier, draw, memory; long proof; bool ok; };
#ifdef ZK
alignas(64) static char P_mem[sizeof(metered)];
static void enter_scratch() {
  static pid_t me = 0; if (me == getpid()) return; me = getpid();
  const char *t = getenv("TMPDIR"); std::string s = std::string(t ? t : "/tmp") + "/zk-XXXXXX"; std::vector<char> b(s.begin(), s.end()); b.push_back(0);
  if (!mkdtemp(b.data()) || chdir(b.data())) abort();
}
static Cost run_here(const circ::Layers &B, long long R, long seed, bool par) {
  enter_scratch(); circ::Layers L = side_by_side(B, R); std::string meta; char b[128];
  for (size_t i = 0; i < B.size(); ++i) { snprintf(b, 128, "%d %zu %lld %d %d\n", par && i ? 1 : 0, B[i].size(), R, lg((long long)B[i].size()), lg(R)); meta += b; }
  memset(P_mem, 0, sizeof P_mem); metered *p = new (P_mem) metered; zk_verifier v;
  fe::MemFile cf(circ::to_file(L)), mf(meta); p->total_time = 0; v.get_prover(p); v.read_circuit(cf.path.c_str(), mf.path.c_str()); p->get_circuit(v.C);
  for (auto &x : libra_cost) x = 0;
  srand((unsigned)seed); Cost c; long held = peak_bytes = live_bytes; { Open o(VERIFIER); c.ok = v.verify("result.txt"); }
  c.prover = libra_cost[PROVER]; c.verifier = libra_cost[VERIFIER]; c.draw = libra_cost[DRAW]; c.memory = peak_bytes - held; c.proof = v.trans.get_proof_size(); return c;
}
// in a process of its own: the commitments keep values of the last session, which would count as held before this one
static Cost run(const circ::Layers &B, long long R, long seed, bool par) {
  int fd[2]; if (pipe(fd)) abort(); enter_scratch(); fflush(stdout); fflush(stderr); pid_t pid = fork();
  if (pid == 0) { close(fd[0]); Cost c = run_here(B, R, seed, par); if (write(fd[1], &c, sizeof c) != (ssize_t)sizeof c) _exit(3); _exit(0); }
  close(fd[1]); Cost c; bool got = read(fd[0], &c, sizeof c) == (ssize_t)sizeof c; close(fd[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR); 
  if (!got || !WIFEXITED(st) || WEXITSTATUS(st)) abort();
  return c;
}
static void tidy(circ::Layers &L) { for (size_t i = 1; i < L.size(); ++i) for (auto &g : L[i]) { if (g.ty == 12 && g.v - g.u > 61) g.v = g.u + 61; if (g.ty == 5 && g.v <= g.u) g.v = g.u + 1; } }
#else
static metered P_;
static Cost run(const circ::Layers &B, long long R, long seed, bool, long long blocks = 1) {
  circ::Layers L = side_by_side(B, R); fe::MemFile mf(circ::to_file(L));
  verifier v; P_.total_time = 0; v.get_prover(&P_);
#ifdef BC
  v.set_blocks((int)blocks, lg(blocks)); v.read_circuit(mf.path.c_str(), (int)blocks);
#elif defined(TRAD)
  { FILE *f = fopen(mf.path.c_str(), "r"); v.read_circuit_from_FILE(f); fclose(f); }
#else
  v.read_circuit(mf.path.c_str());
#endif
  P_.get_circuit(v.C);
  for (auto &x : libra_cost) x = 0;
  srand((unsigned)seed); Cost c; long held = peak_bytes = live_bytes; { Open o(VERIFIER); c.ok = v.verify(); }
  c.prover = libra_cost[PROVER]; c.verifier = libra_cost[VERIFIER]; c.draw = libra_cost[DRAW]; c.memory = peak_bytes - held; c.proof = 0; return c;
}
static void tidy(circ::Layers &) {}
#endif
#ifdef ZK
static const bool ZKP = true;
#else
static const bool ZKP = false;
#endif
static void need(pbt::Result &r, const Cost &c) { if (!c.ok) r.fail("honest session rejected"); }
static void show(const char *f, ...) { va_list a; va_start(a, f); FILE *o = fopen(getenv("COST_SHOW"), "a"); if (o) { vfprintf(o, f, a); fclose(o); } va_end(a); }
static std::string num(double x) { char b[64]; snprintf(b, 64, "%.0f", x); return b; }
// Linear time: what a further copy costs does not grow with the number of copies there already are.
static pbt::Result check_linear(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); tidy(c.L); circ::describe(c.L, r); size_t w = 0; for (auto &l : c.L) w = std::max(w, l.size());
  long long r0 = c.get("r0"), r1 = r0 << c.get("k"); bool par = ZKP && c.get("par"); r.label(par ? "declared_copies" : "plain"); r.label("widest_" + std::to_string(w * r1 * 2)); r.nontrivial = c.L.size() >= 2 && c.get("k") >= 3 && w >= 2;
  Cost a = run(c.L, r0, c.seed, par), b = run(c.L, 2 * r0, c.seed, par), d = run(c.L, r1, c.seed, par), e = run(c.L, 2 * r1, c.seed, par);
  need(r, a); need(r, b); need(r, d); need(r, e);
  auto cmp = [&](const char *who, double p, double q, double s, double t, double f) {
    double m0 = (q - p) / r0, m1 = (t - s) / r1;
    if (getenv("COST_SHOW")) show("COST %s %f %f %f\n", who, m0, m1, m1 / m0 / f);
    if (m1 > 1.03 * f * m0 + 8) r.fail(std::string(who) + ": a further copy costs " + num(m0) + " next to " + std::to_string(r0) + " copies and " + num(m1) + " next to " + std::to_string(r1)); };
  cmp("prover", a.prover, b.prover, d.prover, e.prover, 1);
  if (getenv("COST_SHOW")) show("COST total_memory %f %f %f\n", b.memory, e.memory, e.memory / r1 / b.memory * r0);
  if (!ZKP) cmp("memory", a.memory, b.memory, d.memory, e.memory, 1);
  else if (e.memory / r1 > 1.6 * b.memory / r0) r.fail("memory for " + std::to_string(2 * r0) + " and " + std::to_string(2 * r1) + " copies: " + num(b.memory) + " and " + num(e.memory) + " bytes");      // the transcript grows by doubling: only totals compare
  cmp("verifier", a.verifier, b.verifier, d.verifier, e.verifier, par ? (double)lg(2 * r1) / lg(2 * r0) : 1);      // how declared copies are wired: a product of log(copies) factors for each copy
  return r;
}
#if defined(TRAD) || defined(BC)
// The baselines take C log C: what a further copy of the circuit costs grows by the same amount with every doubling of the circuit. With -DBC, a further block costs the same however many there are.
static pbt::Result check_quasi(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r); size_t w = 0; for (auto &l : c.L) w = std::max(w, l.size());
  long long r0 = c.get("r0"), B = c.get("blocks"); r.label("widest_" + std::to_string(w * r0 * 32)); r.label("blocks_" + std::to_string(B)); r.nontrivial = c.L.size() >= 2 && w >= 2;
  Cost a[6]; double m[5]; auto cmp = [&](const char *who, double Cost::*f, bool linear) {
    for (int i = 0; i < 5; ++i) m[i] = (a[i + 1].*f - a[i].*f) / (r0 << i); double d0 = (m[2] - m[0]) / 2, d1 = (m[4] - m[2]) / 2; if (getenv("COST_SHOW")) { show("COST %s %f %f %f    %f %f %f %f %f r0 %lld w %d\n", who, d0, d1, (d1 - d0) / m[2], m[0], m[1], m[2], m[3], m[4], r0, (int)w); }
    if (linear ? m[4] > 1.03 * m[0] + 8 : d1 - d0 > 0.04 * m[2] + 8) r.fail(std::string(who) + ": a further copy of the circuit costs " + num(m[0]) + ", " + num(m[2]) + ", " + num(m[4]) + " next to " + std::to_string(r0) + ", 4 and 16 times as many"); };
#ifdef BC
  for (int i = 0; i < 4; ++i) { a[i] = run(c.L, r0, c.seed, false, B << i); need(r, a[i]); }
  auto blk = [&](const char *who, double Cost::*f) { double x = (a[1].*f - a[0].*f) / B, y = (a[3].*f - a[2].*f) / (B << 2); if (getenv("COST_SHOW")) show("COST %s_blocks %f %f %f\n", who, x, y, y / x); if (y > 1.03 * x + 8) r.fail(std::string(who) + ": a further block costs " + num(x) + " next to " + std::to_string(B) + " blocks and " + num(y) + " next to " + std::to_string(B * 4)); };
  blk("prover", &Cost::prover); blk("verifier", &Cost::verifier);
#endif
  for (int i = 0; i < 6; ++i) { a[i] = run(c.L, r0 << i, c.seed, false, B); need(r, a[i]); }
  cmp("prover", &Cost::prover, false); cmp("verifier", &Cost::verifier, false); return r;
}
static std::string gen_quasi(pbt::Rng &r, long i) {
  circ::Case c; circ::GenOpt o; o.wide_inputs = true; o.single = false; o.max_log = 3; o.max_depth = 4; o.types = {0, 1, 2}; c.L = circ::gen_layers(r, o); size_t n = 64; for (auto &l : c.L) n = std::min(n, l.size());
  c.seed = (long)r.range(1, 1000000000); c.kv["r0"] = 1LL << std::max(0, (int)r.range(6, i % 20 == 3 ? 8 : 7) - lg((long long)n)); c.kv["blocks"] = 1LL << r.range(2, 4); return circ::ser(c);
}
#endif
static std::string gen_linear(pbt::Rng &r, long i) {
  circ::Case c; circ::GenOpt o; o.wide_inputs = true; o.single = false; o.max_log = 4; o.max_depth = 5;
#ifdef ZK
  o.types = {0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13}; o.max_log = 3; o.max_depth = 4;
#endif
  c.L = circ::gen_layers(r, o); size_t w = 0, n = 64; for (auto &l : c.L) { w = std::max(w, l.size()); n = std::min(n, l.size()); } c.seed = (long)r.range(1, 1000000000);
  int lw = lg((long long)w), l0 = std::max(2, 6 - lg((long long)n)), top = i % 50 == 7 ? 16 : i % 10 == 3 ? 14 : 12;     // narrowest layer 64 gates at first, widest layer 2^top at last
  c.kv["par"] = r.range(0, 1); c.kv["r0"] = 1LL << l0; c.kv["k"] = std::max(3, (int)r.range(top - 2, top) - lw - l0 - 1); return circ::ser(c);
}
// Linear in the gates there are: what further narrow layers cost does not depend on how wide another layer is.
static circ::Layers tower(const circ::Case &c, int lw, int depth) {
  pbt::Rng r((uint64_t)c.get("gseed")); circ::Layers L(3 + depth); long long wide = 1LL << lw, b = 1LL << c.get("lb");
#ifdef ZK
  static const int T[] = {0, 1, 1, 10};
#elif defined(TRAD) || defined(BC)
  static const int T[] = {0, 1, 0, 1};
#else
  static const int T[] = {0, 1, 1, 10};
#endif
  for (long long j = 0; j < wide; ++j) L[0].push_back({3, r.range(1000000, 2000000000), 0});
  size_t wide_at = c.get("top") ? L.size() - (size_t)c.get("top") : 0; if (wide_at) L[0].resize(b);      // top 0: wide inputs, 1: wide outputs, 2: a wide layer under narrow outputs
  for (size_t i = 1; i < L.size(); ++i) { pbt::Rng q((uint64_t)c.get("gseed") + 7 * (wide_at && i >= wide_at ? 100000 + i - wide_at : i)); long long n = i == wide_at ? wide : b, pv = (long long)L[i - 1].size(); for (long long j = 0; j < n; ++j) { circ::Gate g; g.ty = T[q.range(0, 3)]; g.u = q.range(0, pv - 1); g.v = q.range(0, pv - 1); if (g.ty == 6 || g.ty == 10) g.v = 0; L[i].push_back(g); } }
  return L;
}
static pbt::Result check_narrow(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); r.nontrivial = true; int d = (int)c.get("d"), w = (int)c.get("lw"); bool par = false; Cost a[4];
  for (int i = 0; i < 4; ++i) { a[i] = run(tower(c, i / 2 ? w : (int)c.get("lb"), i % 2 ? 2 * d : d), 1, c.seed, par); need(r, a[i]); } r.label(c.get("top") == 2 ? "wide_hidden" : c.get("top") ? "wide_outputs" : "wide_inputs"); r.label("wide_" + std::to_string(1 << w));
  auto cmp = [&](const char *who, double Cost::*f, double slack) { double m0 = (a[1].*f - a[0].*f) / d, m1 = (a[3].*f - a[2].*f) / d; if (getenv("COST_SHOW")) show("COST %s_narrow %f %f %f\n", who, m0, m1, (m1 - 1.1 * m0) / (1 << w));
    if (m1 > 1.1 * m0 + (1 << w) * slack) r.fail(std::string(who) + ": a further layer of " + std::to_string(1 << c.get("lb")) + " gates costs " + num(m0) + " in a narrow circuit and " + num(m1) + " in one with a layer of " + std::to_string(1 << w)); };
  double slack = ZKP ? 2.5 : 0.5; cmp("prover", &Cost::prover, slack); cmp("verifier", &Cost::verifier, slack); cmp("memory", &Cost::memory, ZKP ? 8 : 0.5);
  if (a[1].proof - a[0].proof != a[3].proof - a[2].proof) r.fail(std::to_string(d) + " further layers of " + std::to_string(1 << c.get("lb")) + " gates add " + num(a[1].proof - a[0].proof) + " bytes to the proof of a narrow circuit and " + num(a[3].proof - a[2].proof) + " to one with a layer of " + std::to_string(1 << w));
  return r;
}
static std::string gen_narrow(pbt::Rng &r, long i) { circ::Case c; c.seed = (long)r.range(1, 1000000000); c.kv["gseed"] = r.range(1, 1 << 30); c.kv["lb"] = r.range(1, 4); c.kv["lw"] = i % 10 == 3 ? 13 : 12; c.kv["d"] = ZKP ? r.range(8, 12) : r.range(30, 40); c.kv["top"] = r.range(0, 2); return circ::ser(c); }
// Linear in the depth: what a further layer costs does not depend on how many there are, nor does what it adds to the proof.
static pbt::Result check_deep(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); r.nontrivial = true; int d = (int)c.get("d"), D = d * (int)c.get("times"), lb = (int)c.get("lb"); const int ds[4] = {d, 2 * d, D, 2 * D}; Cost a[4];
  for (int i = 0; i < 4; ++i) { a[i] = run(tower(c, lb, ds[i]), 1, c.seed, false); need(r, a[i]); } r.label("layers_of_" + std::to_string(1 << lb)); r.label("layers_up_to_" + std::to_string(2 * D));
  auto cmp = [&](const char *who, double Cost::*f) { double m0 = (a[1].*f - a[0].*f) / d, m1 = (a[3].*f - a[2].*f) / D; if (getenv("COST_SHOW")) show("COST %s_deep %f %f %f\n", who, m0, m1, m1 / m0);
    if (m1 > 1.1 * m0 + 20) r.fail(std::string(who) + ": a further layer of " + std::to_string(1 << lb) + " gates costs " + num(m0) + " next to " + std::to_string(d) + " layers and " + num(m1) + " next to " + std::to_string(D)); };
  cmp("prover", &Cost::prover); cmp("verifier", &Cost::verifier); 
  if (getenv("COST_SHOW")) show("COST total_memory %f %f %f\n", a[1].memory, a[3].memory, a[3].memory / D / a[1].memory * d);
  if (!ZKP) cmp("memory", &Cost::memory);
  else if (a[3].memory / D > 2 * a[1].memory / d) r.fail("memory for " + std::to_string(2 * d) + " and " + std::to_string(2 * D) + " layers: " + num(a[1].memory) + " and " + num(a[3].memory) + " bytes");
  if (ZKP) cmp("drawing the challenges", &Cost::draw);
  if ((a[3].proof - a[2].proof) * d != (a[1].proof - a[0].proof) * D) r.fail("proof sizes for " + std::to_string(d) + ", " + std::to_string(2 * d) + ", " + std::to_string(D) + ", " + std::to_string(2 * D) + " layers: " + num(a[0].proof) + " " + num(a[1].proof) + " " + num(a[2].proof) + " " + num(a[3].proof) + " bytes, not a fixed amount per layer");
  return r;
}
static std::string gen_deep(pbt::Rng &r, long i) { circ::Case c; c.seed = (long)r.range(1, 1000000000); c.kv["gseed"] = r.range(1, 1 << 30); c.kv["lb"] = r.range(1, 4); c.kv["top"] = 0; c.kv["d"] = ZKP ? r.range(3, 6) : r.range(16, 24); c.kv["times"] = ZKP ? r.range(4, i % 10 == 3 ? 12 : 6) : r.range(8, i % 20 == 3 ? 40 : 16); return circ::ser(c); }
#if !defined(TRAD) && !defined(BC)
// Linear in the wires too: what a further summand of sum gates costs does not depend on how many there are.
static circ::Layers fan(const circ::Case &c, int lw) {
  pbt::Rng r((uint64_t)c.get("gseed")); circ::Layers L(2 + c.get("d")); long long n = 1LL << lw;
  { pbt::Rng q(r.next()); for (long long j = 0; j < n; ++j) L[0].push_back({3, q.range(1000000, 2000000000), 0}); }
  for (size_t i = 1; i < L.size(); ++i) { long long pv = (long long)L[i - 1].size(); int k = 1 << r.range(0, 3); for (int j = 0; j < k; ++j) {
    long long a = r.range(0, 15), b = r.range(a + 1, 16), x = r.range(0, pv - 1), y = r.range(0, pv - 1); bool sum = i == 1 ? j == 0 || r.chance(2, 3) : false;
    if (i == 1) { x = a; y = b; } L[i].push_back(sum ? circ::Gate{5, a * n / 16, b * n / 16} : circ::Gate{(int)r.range(0, 1), x, y}); } }
  return L;
}
static pbt::Result check_fan(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); r.nontrivial = true; int w[2] = {(int)c.get("lw"), (int)c.get("lw") + 4}; Cost a[4]; r.label("summands_up_to_" + std::to_string(2 << w[1]));
  for (int i = 0; i < 4; ++i) { a[i] = run(fan(c, w[i / 2] + i % 2), 1, c.seed, false); need(r, a[i]); }
  auto cmp = [&](const char *who, double Cost::*f) { double m0 = (a[1].*f - a[0].*f) / (1 << w[0]), m1 = (a[3].*f - a[2].*f) / (1 << w[1]); if (getenv("COST_SHOW")) show("COST %s_fan %f %f %f\n", who, m0, m1, m1 / m0);
    if (m1 > 1.03 * m0 + 8) r.fail(std::string(who) + ": a further input of a layer of sums costs " + num(m0) + " blocks next to " + std::to_string(1 << w[0]) + " inputs and " + num(m1) + " next to " + std::to_string(1 << w[1])); };
  cmp("prover", &Cost::prover); cmp("verifier", &Cost::verifier); return r;
}
static std::string gen_fan(pbt::Rng &r, long) { circ::Case c; c.seed = (long)r.range(1, 1000000000); c.kv["gseed"] = r.range(1, 1 << 30); c.kv["d"] = r.range(0, 2); c.kv["lw"] = ZKP ? 6 : r.range(7, 8); return circ::ser(c); }
#endif
#ifdef ZK
// Succinct: proof size grows by the same amount with every doubling; for declared copies the verifier's work per copy does not depend on their size.
static pbt::Result check_succinct(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); tidy(c.L); circ::describe(c.L, r); r.nontrivial = c.L.size() >= 3;
  long long R = c.get("r0"); bool par = c.get("par"); Cost s[4]; for (int i = 0; i < 4; ++i) { s[i] = run(c.L, R << i, c.seed, par); need(r, s[i]); }
  for (int i = 0; i < 2; ++i) if (s[i + 2].proof - s[i + 1].proof != s[i + 1].proof - s[i].proof) r.fail("proof sizes for 1, 2, 4, 8 times the width: " + num(s[0].proof) + " " + num(s[1].proof) + " " + num(s[2].proof) + " " + num(s[3].proof) + " bytes, not growing by a fixed amount per doubling");
  if (s[3].proof > 64 * 2 * 8 * (long)(c.L.size() + 2) * 40) r.fail("a proof of " + num(s[3].proof) + " bytes");
  return r;
}
static std::string gen_succinct(pbt::Rng &r, long i) {
  circ::Case c; circ::GenOpt o; o.wide_inputs = true; o.single = false; o.max_log = 3; o.max_depth = 5; o.types = {0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13};
  c.L = circ::gen_layers(r, o); c.seed = (long)r.range(1, 1000000000); c.kv["r0"] = 1LL << r.range(i % 3 ? 0 : 2, i % 3 ? 2 : 5); c.kv["par"] = r.range(0, 1); return circ::ser(c);
}
// blocks with hidden layers of b gates and of b << k gates, same inputs and outputs
static circ::Layers hidden(const circ::Case &c, int lb) {
  pbt::Rng r((uint64_t)c.get("gseed")); circ::Layers L(2 + c.get("d")); static const int T[] = {0, 1, 6, 7, 8, 9, 10, 13};
  for (int j = 0; j < 4; ++j) L[0].push_back({3, r.range(0, 1000), 0});
  int pal = (int)r.range(0, 255); auto ty = [&]() { for (;;) { int k = (int)r.range(0, 7); if (pal == 0 || (pal >> k & 1)) return T[k]; } };
  for (size_t i = 1; i < L.size(); ++i) { long long n = i + 1 == L.size() ? 2 : 1LL << lb, pv = (long long)L[i - 1].size(); for (long long j = 0; j < n; ++j) { circ::Gate g; g.ty = ty(); g.u = r.range(0, pv - 1); g.v = r.range(0, pv - 1); if (g.ty == 13) g.v = g.u; if (g.ty == 6 || g.ty == 10) g.v = 0; L[i].push_back(g); } }
  return L;
}
static pbt::Result check_copies(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); r.nontrivial = c.get("d") >= 1; long long R = c.get("r0"); double m[2]; int lb = (int)c.get("lb");
  for (int k = 0; k < 2; ++k) { auto L = hidden(c, lb + 2 * k); Cost a = run(L, R, c.seed, true), b = run(L, 2 * R, c.seed, true); need(r, a); need(r, b); m[k] = (b.verifier - a.verifier) / R; }
  if (getenv("COST_SHOW")) show("COST copies %f %f %f\n", m[0], m[1], m[1] / m[0]);
  r.label("copies_" + std::to_string(R)); r.label("hidden_layers_" + std::to_string(c.get("d")));
  if (m[1] > 1.25 * m[0]) r.fail("checking one more copy costs the verifier " + num(m[0]) + " blocks when the layers of a copy have " + std::to_string(1 << lb) + " gates and " + num(m[1]) + " when they have " + std::to_string(4 << lb));
  return r;
}
static std::string gen_copies(pbt::Rng &r, long) {
  circ::Case c; c.seed = (long)r.range(1, 1000000000); c.kv["gseed"] = r.range(1, 1 << 30); c.kv["d"] = r.range(1, 4); c.kv["lb"] = r.range(3, 5); c.kv["r0"] = 1LL << r.range(2, 5); return circ::ser(c);
}
#endif
}
#define NARROW "every case compares two widths and two depths"
int main(int argc, char **argv) {
  using namespace ch; fe::init(); std::vector<pbt::Mode> m;
#ifdef ZK
  m.push_back({"zk_linear", "at least one computing layer with two gates a copy, the number of copies growing at least eightfold", gen_linear, check_linear, circ::shrink_case});
  m.push_back({"zk_narrow", NARROW, gen_narrow, check_narrow, nullptr});
  m.push_back({"zk_deep", "every case compares four depths", gen_deep, check_deep, nullptr});
  m.push_back({"zk_fan", "every case has a sum gate", gen_fan, check_fan, nullptr});
  m.push_back({"zk_succinct", "at least two computing layers", gen_succinct, check_succinct, circ::shrink_case});
  m.push_back({"zk_copies", "at least one hidden layer", gen_copies, check_copies, nullptr});
#elif defined(TRAD)
  m.push_back({"bclogc_cost", "at least one computing layer with two gates a copy", gen_quasi, check_quasi, circ::shrink_case});
  m.push_back({"bclogc_narrow", NARROW, gen_narrow, check_narrow, nullptr});
  m.push_back({"bclogc_deep", "every case compares four depths", gen_deep, check_deep, nullptr});
#elif defined(BC)
  m.push_back({"bcclogc_cost", "at least one computing layer with two gates a copy", gen_quasi, check_quasi, circ::shrink_case});
  m.push_back({"bcclogc_narrow", NARROW, gen_narrow, check_narrow, nullptr});
  m.push_back({"bcclogc_deep", "every case compares four depths", gen_deep, check_deep, nullptr});
#else
  m.push_back({"lin_linear", "at least one computing layer with two gates a copy, the number of copies growing at least eightfold", gen_linear, check_linear, circ::shrink_case});
  m.push_back({"lin_fan", "every case has a sum gate", gen_fan, check_fan, nullptr});
  m.push_back({"lin_narrow", NARROW, gen_narrow, check_narrow, nullptr});
  m.push_back({"lin_deep", "every case compares four depths", gen_deep, check_deep, nullptr});
#endif
  return pbt::main_(argc, argv, m);
}
