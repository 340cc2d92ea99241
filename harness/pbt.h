// Small property-based-testing engine used by every harness.
// A harness supplies: generate(rng,size) -> text case, check(case) -> Result, shrink(case) -> candidates.
// All randomness derives from (VERIF_SEED, mode name, case index); a case is a self-contained text document,
// so the shrunk failing case is the replay file.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace pbt {

struct Rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  explicit Rng(uint64_t seed) { for (int i = 0; i < 4; ++i) s[i] = mix(seed); }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  // uniform in [lo,hi]
  long long range(long long lo, long long hi) { if (hi <= lo) return lo; return lo + (long long)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (long long)(next() % (uint64_t)den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  int weighted(const std::vector<int> &w) { int t = 0; for (int x : w) t += x; int r = (int)(next() % (uint64_t)t); for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return (int)i; r -= w[i]; } return (int)w.size() - 1; }
};

inline uint64_t hash_str(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Result {
  bool ok = true;
  bool nontrivial = false;
  std::string msg;
  std::vector<std::string> labels;
  void fail(const std::string &m) { if (ok) { ok = false; msg = m; } }
  void label(const std::string &l) { labels.push_back(l); }
};

struct Mode {
  std::string name;
  std::string rule;                                             // what makes a case non-trivial
  std::function<std::string(Rng &, long)> generate;             // index also given
  std::function<Result(const std::string &)> check;
  std::function<std::vector<std::string>(const std::string &)> shrink;
  int case_timeout_s = 60;
};

struct Stats { long evals = 0, nontrivial = 0, nskip = 0; std::map<std::string, long> labels; std::vector<std::string> samples; std::set<uint64_t> distinct; };

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if (c >= 127) o += '?'; else o += (char)c; }
  return o;
}
inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared { volatile long cur[64]; volatile double started[64]; volatile int stop; };

// A document is either one case or a history of cases run one after another in one process.
static const char *const SEQ_HEAD = "#SEQ\n", *const SEQ_SEP = "\n=====\n";
inline Result check_doc(const Mode &m, const std::string &doc) {
  if (doc.compare(0, strlen(SEQ_HEAD), SEQ_HEAD) != 0) return m.check(doc);
  size_t pos = strlen(SEQ_HEAD); alarm(m.case_timeout_s * 4);
  while (pos < doc.size()) {
    size_t e = doc.find(SEQ_SEP, pos); if (e == std::string::npos) e = doc.size();
    Result r = m.check(doc.substr(pos, e - pos)); if (!r.ok) { r.msg = "(after other cases in the same process) " + r.msg; return r; }
    pos = e + strlen(SEQ_SEP);
  }
  return Result();
}
// run one case in a child; returns 0 ok, 1 check failed, 2 crashed, 3 timed out
inline int run_isolated(const Mode &m, const std::string &c, std::string &msg) {
  int fds[2]; if (pipe(fds)) return 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]); prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!getenv("PBT_VERBOSE")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); }
    alarm(m.case_timeout_s);
    Result r = check_doc(m, c);
    std::string out = r.msg.substr(0, 3000);
    if (!r.ok) { ssize_t w = write(fds[1], out.data(), out.size()); (void)w; }
    _exit(r.ok ? 0 : 1);
  }
  close(fds[1]); msg.clear(); char buf[4096]; ssize_t n;
  while ((n = read(fds[0], buf, sizeof buf)) > 0) msg.append(buf, n);
  close(fds[0]); int st = 0; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && !msg.empty()) return 1;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { msg = "case did not terminate within " + std::to_string(m.case_timeout_s) + " s"; return 3; }
  msg = WIFSIGNALED(st) ? "the program was killed by signal " + std::to_string(WTERMSIG(st)) + " (crash, assertion or sanitizer report)"
                        : "the program exited unexpectedly with status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit call)";
  return 2;
}

inline void write_file(const std::string &p, const std::string &s) { std::ofstream f(p, std::ios::binary); f << s; }
inline std::string read_file(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }

// worker message format on the pipe: lines "L label count", "S sample", "D hash", "N evals nontrivial", "F index"
inline int run_mode(const Mode &m, uint64_t seed, long cases, int workers, double budget_s, const std::string &outdir, const std::string &statfile) {
  double t0 = now_s();
  Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  if (workers > 60) workers = 60;
  std::vector<pid_t> pids(workers); std::vector<int> rfd(workers);
  fflush(stdout); fflush(stderr);
  uint64_t base = seed * 0x9e3779b97f4a7c15ull ^ hash_str(m.name);
  auto case_at = [&](long i) { Rng r(base ^ (0xd1342543de82ef95ull * (uint64_t)(i + 1))); return m.generate(r, i); };
  for (int w = 0; w < workers; ++w) {
    int fds[2]; if (pipe(fds)) return 2;
    fcntl(fds[0], F_SETPIPE_SZ, 1 << 20);
    sh->cur[w] = -1;
    pid_t pid = fork();
    if (pid == 0) {
      close(fds[0]); for (int k = 0; k < w; ++k) close(rfd[k]);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
      Stats s; FILE *o = fdopen(fds[1], "w"); int rc = 0;
      for (long i = w; i < cases; i += workers) {
        if (sh->stop) break;
        if (budget_s > 0 && now_s() - t0 > budget_s) { s.labels["_stopped_by_time_budget"]++; break; }
        sh->started[w] = now_s(); sh->cur[w] = i;
        std::string c = case_at(i);
        Result r = m.check(c);
        s.evals++;
        for (auto &l : r.labels) s.labels[l]++;
        if (r.nontrivial && s.distinct.size() < 400000) { if (s.distinct.insert(hash_str(c)).second) { s.nontrivial++; if (s.samples.size() < 3) s.samples.push_back(c.substr(0, 1500)); } }
        if (!r.ok) { fprintf(o, "F %ld\n", i); sh->stop = 1; rc = 1; break; }
      }
      sh->cur[w] = -2;
      for (auto &l : s.labels) fprintf(o, "L %ld %s\n", l.second, l.first.c_str());
      for (auto &x : s.samples) fprintf(o, "S %s\n", jesc(x).c_str());
      for (auto &h : s.distinct) fprintf(o, "D %llx\n", (unsigned long long)h);
      fprintf(o, "N %ld\n", s.evals); fflush(o); fclose(o);
      _exit(rc);
    }
    close(fds[1]); pids[w] = pid; rfd[w] = fds[0];
  }
  // watchdog + collection
  std::vector<std::string> data(workers); std::vector<bool> open_(workers, true); Stats tot; std::vector<long> failed; std::vector<std::string> reasons; std::set<uint64_t> distinct; long unreported = 0;
  int nopen = workers;
  for (int w = 0; w < workers; ++w) fcntl(rfd[w], F_SETFL, O_NONBLOCK);
  while (nopen) {
    bool any = false;
    for (int w = 0; w < workers; ++w) if (open_[w]) {
      char buf[65536]; ssize_t n = read(rfd[w], buf, sizeof buf);
      if (n > 0) { data[w].append(buf, n); any = true; }
      else if (n == 0) {
        open_[w] = false; nopen--; close(rfd[w]); int st; waitpid(pids[w], &st, 0);
        bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1) && sh->cur[w] == -2;
        if (!clean) { if (sh->cur[w] >= 0) { failed.push_back((long)sh->cur[w]); unreported += sh->cur[w] / workers + 1; sh->stop = 1; } }
        any = true;
      } else if (sh->cur[w] >= 0 && now_s() - sh->started[w] > m.case_timeout_s) { kill(pids[w], SIGKILL); }
    }
    if (!any) usleep(2000);
  }
  for (int w = 0; w < workers; ++w) {
    std::istringstream is(data[w]); std::string line;
    while (std::getline(is, line)) {
      if (line[0] == 'F') failed.push_back(atol(line.c_str() + 2));
      else if (line[0] == 'N') tot.evals += atol(line.c_str() + 2);
      else if (line[0] == 'D') distinct.insert(strtoull(line.c_str() + 2, 0, 16));
      else if (line[0] == 'S') { if (tot.samples.size() < 6) tot.samples.push_back(line.substr(2)); }
      else if (line[0] == 'L') { char *e; long n = strtol(line.c_str() + 2, &e, 10); tot.labels[e + 1] += n; }
    }
  }
  tot.evals += unreported;
  int rc = 0; std::string vmsg, replay;
  std::sort(failed.begin(), failed.end());
  long unrepro = 0;
  for (long idx : failed) {
    std::string c = case_at(idx), msg;
    int k = run_isolated(m, c, msg);
    bool seq = false;
    if (!k) {  // history-dependent: replay the worker's whole prefix, then drop its head by halves
      std::vector<std::string> pre; for (long i = idx % workers; i <= idx; i += workers) pre.push_back(case_at(i));
      auto doc = [&](size_t from) { std::string d = SEQ_HEAD; for (size_t q = from; q < pre.size(); ++q) { if (q > from) d += SEQ_SEP; d += pre[q]; } return d; };
      size_t from = 0; k = run_isolated(m, doc(0), msg);
      if (!k) { unrepro++; tot.labels["_unreproduced_failure"]++; fprintf(stderr, "warning: case %ld of %s failed in a worker but not again\n", idx, m.name.c_str()); continue; }
      for (size_t step = pre.size() / 2; step > 0; step /= 2) while (from + step < pre.size()) { std::string m2; if (!run_isolated(m, doc(from + step), m2)) break; from += step; msg = m2; }
      c = doc(from); seq = true;
    }
    // shrink
    double ts = now_s(); long tries = 0; bool progress = true;
    while (!seq && progress && m.shrink && now_s() - ts < 60 && k != 3) {
      progress = false;
      for (auto &cand : m.shrink(c)) {
        if (now_s() - ts > 60) break;
        std::string m2; ++tries;
        int k2 = run_isolated(m, cand, m2);
        if (k2 == 1 || k2 == 2) { c = cand; msg = m2; k = k2; progress = true; break; }
      }
    }
    // replay three times
    int rep = 0; for (int t = 0; t < (k == 3 ? 1 : 3); ++t) { std::string m2; if (run_isolated(m, c, m2)) ++rep; }
    if (rep < (k == 3 ? 1 : 3)) { unrepro++; tot.labels["_unreproduced_failure"]++; continue; }
    replay = outdir + "/" + m.name + ".case";
    write_file(replay, c); vmsg = msg; rc = 1;
    printf("FAIL mode=%s case=%ld shrink_tries=%ld: %s\n", m.name.c_str(), idx, tries, msg.c_str());
    printf("REPLAY %s\n", replay.c_str());
    break;
  }
  FILE *f = fopen(statfile.c_str(), "w");
  if (f) {
    fprintf(f, "{\"mode\":\"%s\",\"rule\":\"%s\",\"evaluations\":%ld,\"distinct_nontrivial\":%zu,\"wall_s\":%.2f,\"labels\":{", m.name.c_str(), jesc(m.rule).c_str(), tot.evals, distinct.size(), now_s() - t0);
    bool first = true; for (auto &l : tot.labels) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(l.first).c_str(), l.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto &s : tot.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", s.c_str()); first = false; }
    fprintf(f, "],\"failed\":%s,\"message\":\"%s\",\"replay\":\"%s\"}\n", rc ? "true" : "false", jesc(vmsg).c_str(), jesc(replay).c_str());
    fclose(f);
  }
  printf("mode %s: %ld cases, %zu distinct non-trivial, %.1f s, %s\n", m.name.c_str(), tot.evals, distinct.size(), now_s() - t0, rc ? "FAILED" : "ok");
  munmap((void *)sh, sizeof *sh);
  return rc;
}

// usage: harness --mode M --cases N --seed S [--workers W] [--budget SEC] --out DIR --stat FILE
//        harness --mode M --replay FILE | --show INDEX
inline int main_(int argc, char **argv, const std::vector<Mode> &modes) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  for (auto &m : modes) if (m.name == a["--mode"]) {
    if (a.count("--replay")) {
      std::string msg; int k = run_isolated(m, read_file(a["--replay"]), msg);
      printf("%s%s%s\n", k ? "REPRODUCED" : "PASS", k ? ": " : "", msg.c_str());
      return k ? 1 : 0;
    }
    uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    if (a.count("--show")) { long i = atol(a["--show"].c_str()); Rng r((seed * 0x9e3779b97f4a7c15ull ^ hash_str(m.name)) ^ (0xd1342543de82ef95ull * (uint64_t)(i + 1))); printf("%s", m.generate(r, i).c_str()); return 0; }
    long cases = a.count("--cases") ? atol(a["--cases"].c_str()) : 1000;
    int w = a.count("--workers") ? atoi(a["--workers"].c_str()) : 8;
    double b = a.count("--budget") ? atof(a["--budget"].c_str()) : 0;
    std::string out = a.count("--out") ? a["--out"] : ".";
    return run_mode(m, seed, cases, w, b, out, a.count("--stat") ? a["--stat"] : out + "/" + m.name + ".stat.json");
  }
  fprintf(stderr, "unknown mode\nmodes:"); for (auto &m : modes) fprintf(stderr, " %s", m.name.c_str()); fprintf(stderr, "\n");
  return 2;
}
}  // namespace pbt
