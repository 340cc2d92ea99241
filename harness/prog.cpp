// The command-line programs (main_fast_track.cpp, bclogc.cpp, bc_clogc.cpp, main_zk.cpp) from their main function on, with a prover
// that claims a wrong output in chosen sessions. Oracle: the program reports success exactly if no session was false; what it writes and prints
// about an accepted session is true.   -DPROG=1 linear, 3 bclogc, 4 bc_clogc, 5 zk
#include <chrono>
#include <iostream>
#include <fstream>
#include <string>
#include <cstring>
#include <cassert>
#include <utility>
#include <vector>
#include <unordered_map>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "circ.h"
#include "fe.h"
#if PROG == 1
#include "linear_gkr/prover_fast_track.h"
#elif PROG == 3
#include "traditional_gkr/prover_clogc.h"
#elif PROG == 4
#include "traditional_gkr/prover_bc_clogc.h"
#else
#include "linear_gkr/zk_prover.h"
#include "linear_gkr/transcript.h"
#endif
namespace qh {
using fe::F;
static long cheat_mask = 0, dk = 0, opos = 0, sessions = 0; static double time_sum = 0; static size_t out_size = 0; static int copies_log = 0;
static size_t n_curve = 0, n_field = 0; static double *live_time = nullptr;
#if PROG == 5
typedef zk_prover base;
#else
typedef prover base;
#endif
class liar : public base {
public:
  liar() { live_time = &this->total_time; }
  ~liar() { time_sum += this->total_time; }
  template <class... A> auto evaluate(A &&... a) -> decltype(base::evaluate(std::forward<A>(a)...)) {
    auto out = base::evaluate(std::forward<A>(a)...); long k = sessions++;
    if (!(cheat_mask >> k & 1)) return out;
    pbt::Rng q((uint64_t)opos * 31 + dk); mpz_class d = fe::delta(dk, q); size_t j;
    size_t n = PROG == 4 ? out_size << copies_log : out_size; j = (size_t)opos % n;
    auto *fake = new F[n]; for (size_t i = 0; i < n; ++i) fake[i] = out[i];
    fake[j] = fe::put(fe::get(fake[j]) + d); return fake;
  }
};
#if PROG == 5
class book; static book *live_book = nullptr;
class book : public proof_transcript { public: book() { live_book = this; } void count() { n_curve = n_field = 0; for (auto &c : msg) if (c.indicator == container::curve_ele_indicator) ++n_curve; else if (c.indicator != container::randomness_indicator) ++n_field; } };
#endif
}
#define main prog_main
#if PROG == 5
#define zk_prover qh::liar
#define proof_transcript qh::book
#include "linear_gkr/zk_verifier.h"
#include SRC_VERIFIER
#include SRC_MAIN
#undef zk_prover
#undef proof_transcript
#else
#define prover qh::liar
#include SRC_VERIFIER
#include SRC_MAIN
#undef prover
#endif
#undef main
namespace qh {
static const char *NAMES[] = {"", "linear", "", "bclogc", "bc_clogc", "zk"};
static std::vector<std::string> ls() { std::vector<std::string> o; DIR *d = opendir("."); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') o.push_back(e->d_name); closedir(d); std::sort(o.begin(), o.end()); return o; }
static std::string plain_meta(const circ::Layers &L) { std::string m; for (auto &l : L) { size_t n = circ::padded(l.size()); int b = 0; while (((size_t)1 << b) < n) ++b; m += "0 " + std::to_string(n) + " 1 " + std::to_string(b) + " 0\n"; } return m; }
static void put_file(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static bool is_number(const std::string &w, double &x) { char *e; x = strtod(w.c_str(), &e); return !w.empty() && !*e; }
static pbt::Result check(const std::string &doc) {
  pbt::Result r; circ::Case c = circ::deser(doc); circ::describe(c.L, r);
  char dir[] = "prog-XXXXXX"; const char *t = getenv("TMPDIR"); std::string base = std::string(t ? t : "/tmp") + "/" + dir; std::vector<char> b(base.begin(), base.end()); b.push_back(0); if (!mkdtemp(b.data())) abort(); std::string D = b.data();
  int lc = (int)c.get("logcopies"), n = PROG == 3 || PROG == 4 ? 1 << lc : 1; if (PROG == 3) n = (int)c.get("copies");
  cheat_mask = c.get("mask") & (PROG == 3 ? (1L << n) - 1 : 1); bool honest = !cheat_mask;
  r.nontrivial = PROG == 3 ? n > 1 : true; r.label(honest ? "all_sessions_true" : "some_session_false"); if (PROG == 3 || PROG == 4) r.label("copies_" + std::to_string(n));
  put_file(D + "/test_circuit.txt", circ::to_file(c.L)); if (PROG == 5) put_file(D + "/meta.txt", plain_meta(c.L));
  int pfd[2]; if (pipe(pfd)) abort(); auto w0 = std::chrono::steady_clock::now();
  pid_t pid = fork();
  if (!pid) {
    close(pfd[0]); if (chdir(D.c_str())) _exit(90); if (!freopen("stdout.txt", "w", stdout) || !freopen("stderr.txt", "w", stderr)) _exit(91);
    srand((unsigned)c.seed); dk = c.get("dk"); opos = c.get("opos"); copies_log = lc; out_size = circ::padded(c.L.back().size());
    std::vector<std::string> av{"prog"}; if (PROG == 3 || PROG == 4) { av.push_back("test_circuit.txt"); av.push_back(std::to_string(n)); int k = 0; while ((1 << k) < n) ++k; av.push_back(std::to_string(k)); } if (PROG == 5) { av.push_back("test_circuit.txt"); av.push_back("meta.txt"); av.push_back("result.txt"); }
    std::vector<char *> cv; for (auto &s : av) cv.push_back(&s[0]); cv.push_back(nullptr);
    prog_main((int)av.size(), cv.data()); fflush(stdout); fflush(stderr);
#if PROG == 5
    live_book->count();
#endif
    struct { long s; double t; size_t nc, nf; } m{sessions, PROG == 3 ? time_sum : *live_time, n_curve, n_field}; if (write(pfd[1], &m, sizeof m) != sizeof m) _exit(92); _exit(0);
  }
  close(pfd[1]); struct { long s; double t; size_t nc, nf; } m{0, 0, 0, 0}; ssize_t got = read(pfd[0], &m, sizeof m); close(pfd[0]); int st; waitpid(pid, &st, 0);
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - w0).count();
  std::string out = pbt::read_file(D + "/stdout.txt"), bin = pbt::read_file(D + "/proof.bin"), resf = pbt::read_file(D + "/result.txt"); bool has_bin = access((D + "/proof.bin").c_str(), F_OK) == 0, has_res = access((D + "/result.txt").c_str(), F_OK) == 0;
  for (auto f : {"test_circuit.txt", "meta.txt", "stdout.txt", "stderr.txt", "proof.bin", "result.txt"}) unlink((D + "/" + f).c_str());
  bool extra = rmdir(D.c_str()) != 0; if (extra) { if (system(("rm -rf '" + D + "'").c_str())) {} }
  std::string N = NAMES[PROG];
  if (!WIFEXITED(st) || WEXITSTATUS(st) || got != (ssize_t)sizeof m) { r.fail(N + ": the program did not end normally"); return r; }
  bool pass = out.find("Pass") != std::string::npos, fail = out.find("Fail") != std::string::npos;
  if (pass == fail) { r.fail(N + ": the program does not report one verdict: " + out.substr(0, 200)); return r; }
  if (m.s != (PROG == 3 ? n : 1)) { r.fail(N + ": " + std::to_string(m.s) + " sessions were run instead of " + std::to_string(PROG == 3 ? n : 1)); return r; }
  if (pass != honest) { r.fail(N + (pass ? ": success is reported although the proof of session " + std::to_string(__builtin_ctzl(cheat_mask)) + " is false" : ": failure is reported although every session is honest")); return r; }
  if (pass && (PROG == 3 || PROG == 4)) {
    double x; size_t k = out.find("total time "); if (k == std::string::npos) { r.fail(N + ": no prover time reported"); return r; } x = atof(out.c_str() + k + 11);
    if (x < 0 || x > wall + 1e-3 || std::abs(x - m.t) > 2e-6 + 1e-6 * m.t) { r.fail(N + ": reported prover time " + std::to_string(x) + " is not the time of all sessions, " + std::to_string(m.t)); return r; }
  }
#if PROG == 5
  if (!pass) { if (has_bin || has_res) r.fail("zk: a proof or result file is left although the proof was rejected"); return r; }
  if (!has_bin || !has_res) { r.fail("zk: proof.bin or the result file is missing after success"); return r; }
  std::istringstream is(resf); std::vector<double> v; std::string w; double x; while (is >> w) { if (!is_number(w, x)) { r.fail("zk: result file is not a list of numbers"); return r; } v.push_back(x); }
  if (v.size() != 7) { r.fail("zk: the result file has " + std::to_string(v.size()) + " numbers instead of 7"); return r; }
  for (int i : {0, 1, 2, 3, 4, 6}) if (v[i] < -1e-5 || v[i] > wall + 1e-3) { r.fail("zk: time number " + std::to_string(i) + " of the result file is negative or longer than the run"); return r; }
  if (std::abs(v[0] - m.t) > 2e-6 + 1e-6 * m.t) r.fail("zk: the first number of the result file is not the time of the prover");
  if (v[1] + 1e-5 < v[2] || v[1] + 1e-5 < v[3]) r.fail("zk: the verification time is shorter than one of its parts");
  size_t want = m.nc * (sizeof(bn::Ec1) / 3) + m.nf * (sizeof(F) / 2);
  if (v[5] != (double)want) r.fail("zk: the reported proof size is " + std::to_string((long)v[5]) + ", the messages have " + std::to_string(want));
  if (bin.size() < m.nc + m.nf) r.fail("zk: proof.bin is shorter than the messages");
#else
  (void)has_bin; (void)has_res; (void)is_number;
#endif
  return r;
}
static std::string gen(pbt::Rng &r, long i) {
  circ::GenOpt o; o.max_log = i % 25 == 3 ? 6 : 3; o.max_depth = 4; o.wide_inputs = PROG != 4;
  if (PROG == 3 || PROG == 4) o.types = {0, 1, 2};
  if (PROG == 5) o.types = {0, 1, 2, 6, 7, 8, 9, 10, 13};
  circ::Case c; c.L = circ::gen_layers(r, o); c.seed = (long)r.range(1, 1000000000);
  int most = r.chance(1, 12) ? 48 : 9; c.kv["copies"] = r.range(most == 9 ? 1 : 10, most); c.kv["logcopies"] = r.chance(1, 20) ? r.range(5, 7) : r.range(0, 4); c.kv["mask"] = r.chance(1, 3) ? 0 : r.chance(2, 3) ? 1LL << r.range(0, most - 1) : r.range(1, (1LL << most) - 1); c.kv["dk"] = r.range(0, 8); c.kv["opos"] = r.range(0, 1 << 20);
  return circ::ser(c);
}
static std::vector<std::string> shrink(const std::string &s) {
  std::vector<std::string> out = circ::shrink_case(s); circ::Case c = circ::deser(s);
  auto with = [&](const char *k, long long v) { circ::Case d = c; d.kv[k] = v; out.push_back(circ::ser(d)); };
  if (c.get("copies") > 1) { with("copies", c.get("copies") - 1); with("copies", 1); } if (c.get("logcopies") > 0) with("logcopies", c.get("logcopies") - 1);
  long long m = c.get("mask"); if (m & (m - 1)) with("mask", m & (m - 1)); return out;
}
}  // namespace qh
int main(int argc, char **argv) { fe::init(); std::vector<pbt::Mode> m; m.push_back({std::string("prog_") + qh::NAMES[PROG], PROG == 3 ? "more than one copy is verified" : "every case runs the program once, on a true or a false proof", qh::gen, qh::check, qh::shrink}); return pbt::main_(argc, argv, m); }
