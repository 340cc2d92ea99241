// Circuit generators and PWS translators, run as the stand-alone programs they are, against reference models.
#include "circ.h"
#include <sys/types.h>
#include <array>
using namespace circ;
using pbt::Result;
extern char **environ;

static std::string tool(int i) { std::string t = getenv("PBT_TOOLS") ? getenv("PBT_TOOLS") : ""; std::istringstream is(t); std::string x; for (int k = 0; k <= i; ++k) std::getline(is, x, ':'); return x; }
static std::string scratch() {
  static std::string d; static pid_t me = 0;
  if (me != getpid()) { const char *t = getenv("TMPDIR"); std::string s = std::string(t ? t : "/tmp") + "/tool-XXXXXX"; std::vector<char> b(s.begin(), s.end()); b.push_back(0); if (!mkdtemp(b.data())) abort(); d = b.data(); me = getpid(); }
  return d;
}
// returns exit status (-1: signal or time out); standard output goes to DIR/stdout
static int run(const std::string &bin, const std::vector<std::string> &args, const std::string &dir, long seed) {
  pid_t p = fork();
  if (p == 0) {
    if (chdir(dir.c_str())) _exit(120);
    int o = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_WRONLY), in = open("/dev/null", O_RDONLY); dup2(in, 0); dup2(o, 1); dup2(n, 2);
    setenv("PBT_SRAND", std::to_string(seed).c_str(), 1); alarm(60); prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::vector<char *> a; a.push_back((char *)bin.c_str()); for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(0);
    execv(bin.c_str(), a.data()); _exit(121);
  }
  int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

struct Parsed { Layers L; std::string err; };
// strict reading of a circuit document: the format every program of the repository reads
static Parsed parse_circuit(const std::string &s) {
  Parsed p; std::istringstream is(s); long long d = 0;
  if (!(is >> d) || d < 2 || d > 100000) { p.err = "no layer count"; return p; }
  p.L.resize(d);
  for (long long i = 0; i < d; ++i) {
    long long n; if (!(is >> n) || n < 1 || n > (1 << 26)) { p.err = "layer " + std::to_string(i) + " has no gate count"; return p; }
    if (n & (n - 1)) { p.err = "layer " + std::to_string(i) + " has " + std::to_string(n) + " gates, not a power of two"; return p; }
    p.L[i].resize(n);
    for (long long j = 0; j < n; ++j) {
      Gate &g = p.L[i][j]; long long id; std::string w = "layer " + std::to_string(i) + " gate " + std::to_string(j);
      if (!(is >> g.ty >> id >> g.u >> g.v)) { p.err = w + " is missing"; return p; }
      if (id != j) { p.err = w + " has id " + std::to_string(id); return p; }
      if (i == 0) { if (g.ty != 3 && g.ty != 2) { p.err = w + ": type " + std::to_string(g.ty) + " in the input layer"; return p; } continue; }
      static const std::set<int> ok{0, 1, 2, 5, 6, 7, 8, 9, 10}; if (!ok.count(g.ty)) { p.err = w + " has type " + std::to_string(g.ty); return p; }
      long long pv = p.L[i - 1].size(); if (g.ty == 2) continue;
      if (g.u < 0 || g.u >= pv || g.v < 0 || g.v > pv || (g.ty != 5 && g.v >= pv)) { p.err = w + " reads outside the layer below"; return p; }
      if (g.ty == 5) { for (long long k = g.u; k < g.v; ++k) if (p.L[i - 1][k].ty == 2) { p.err = w + " sums an unused gate"; return p; } }
      else if (p.L[i - 1][g.u].ty == 2 || (g.ty != 6 && g.ty != 10 && p.L[i - 1][g.v].ty == 2)) { p.err = w + " reads an unused gate"; return p; }
      if ((g.ty == 6 || g.ty == 10) && g.v != 0) { p.err = w + " is unary with a second operand"; return p; }
    }
  }
  std::string rest; if (is >> rest) p.err = "text after the last layer";
  return p;
}
static std::string S(const mpz_class &x) { return x.get_str(); }

// ---------------------------------------------------------------- generators (bin/gen)
struct GenCase { std::vector<long long> a; long seed = 1; };
static std::string ser_gen(const GenCase &g) { std::string o = "srand " + std::to_string(g.seed) + "\nargs"; for (auto x : g.a) o += " " + std::to_string(x); return o + "\n"; }
static GenCase de_gen(const std::string &s) { GenCase g; std::istringstream is(s); std::string w; while (is >> w) { if (w == "srand") is >> g.seed; else if (w == "args") { long long x; while (is >> x) g.a.push_back(x); } } return g; }
static std::string generate_gen(Rng &r, long) {
  GenCase g; g.seed = (long)r.range(0, 1000000);
  int big = r.chance(1, 40) ? 4 : 0;
  switch (r.weighted({3, 3, 3, 4, 1})) {
    case 0: g.a = {0, r.range(2, 9 + 10 * big), r.range(1, 6 + big)}; break;
    case 1: g.a = {1, r.range(2, 9 + 10 * big), r.range(6, 8 + big)}; break;
    case 2: g.a = {2, 1LL << r.range(0, 3 + big / 2)}; break;
    case 3: g.a = {4, 1LL << r.range(0, 3 + big / 2)}; break;
    case 4: g.a = {5, 2, r.range(1, 7 + big)}; break;
  }
  return ser_gen(g);
}
static Result check_gen(const std::string &s) {
  Result r; GenCase g = de_gen(s); std::string d = scratch(); unlink((d + "/meta_data.txt").c_str());
  std::vector<std::string> a; for (auto x : g.a) a.push_back(std::to_string(x));
  int rc = run(tool(0), a, d, g.seed);
  if (rc == 121) { fprintf(stderr, "no tool\n"); abort(); }
  if (rc) { r.fail("the generator ended with status " + std::to_string(rc)); return r; }
  std::string out = pbt::read_file(d + "/stdout"); Parsed p = parse_circuit(out);
  if (!p.err.empty()) { r.fail("malformed circuit: " + p.err); return r; }
  auto &L = p.L; auto V = eval(L); auto &in = V[0]; auto &o = V.back(); long long mode = g.a[0];
  r.label("mode_" + std::to_string(mode)); r.nontrivial = mode != 5;
  auto expect = [&](size_t i, const mpz_class &e) { if (i >= o.size() || o[i] != e) r.fail("output " + std::to_string(i) + " is " + (i < o.size() ? S(o[i]) : "missing") + ", expected " + S(e)); };
  auto size = [&](size_t want_in, size_t want_out) { if (L[0].size() != want_in) r.fail("the input layer has " + std::to_string(L[0].size()) + " gates"); if (L.back().size() != want_out) r.fail("the output layer has " + std::to_string(L.back().size()) + " gates, expected " + std::to_string(want_out)); return r.ok; };
  auto depth = [&](long long dd) { if ((long long)L.size() != dd) r.fail("the circuit has " + std::to_string(L.size()) + " layers, expected " + std::to_string(dd)); };
  bool meta = false;
  if (mode == 0) {                                     // exclusive-or chain against gate 0, then every second value
    long long dd = g.a[1], n = 1LL << g.a[2]; depth(dd); if (!size(n, n / 2)) return r;
    std::vector<mpz_class> x(in.begin(), in.begin() + n); for (long long k = 1; k < dd - 1; ++k) { std::vector<mpz_class> y(n); for (long long j = 0; j < n; ++j) y[j] = md(x[j] + x[0] - 2 * x[j] * x[0]); x = y; }
    for (long long j = 0; j < n / 2; ++j) expect(j, x[2 * j]);
  } else if (mode == 1) {                              // doubling chain, then products of neighbours
    meta = true; long long dd = g.a[1], n = 1LL << g.a[2]; depth(dd); if (!size(n, n / 2)) return r;
    mpz_class f; mpz_ui_pow_ui(f.get_mpz_t(), 2, 2 * (dd - 2)); for (long long j = 0; j < n / 2; ++j) expect(j, md(f * in[2 * j] * in[2 * j + 1]));
  } else if (mode == 2) {                              // expanded matrix product: one block per entry, pairs A[i][k], B[k][j]
    meta = true; long long n = g.a[1]; if (!size(2 * n * n * n, n * n)) return r;
    for (long long i = 0; i < n; ++i) for (long long j = 0; j < n; ++j) { mpz_class s = 0; for (long long k = 0; k < n; ++k) { long long id = 2 * (i * n * n + j * n + k); s += in[id] * in[id + 1];
      if (in[id] != in[2 * (i * n * n + k)]) r.fail("the copies of A[" + std::to_string(i) + "][" + std::to_string(k) + "] differ"); if (in[id + 1] != in[2 * (j * n + k) + 1]) r.fail("the copies of B[" + std::to_string(k) + "][" + std::to_string(j) + "] differ"); } expect(i * n + j, md(s)); }
  } else if (mode == 4) {                              // A, then B, row by row; outputs are the product
    long long n = g.a[1]; if (!size(2 * n * n, n * n)) return r;
    for (long long i = 0; i < n; ++i) for (long long j = 0; j < n; ++j) { mpz_class s = 0; for (long long k = 0; k < n; ++k) s += in[i * n + k] * in[n * n + k * n + j]; expect(i * n + j, md(s)); }
  } else if (mode == 5) { if (!size(1LL << g.a[2], 2)) return r; expect(0, 0); expect(1, 0); }
  if (meta) {
    std::istringstream ms(pbt::read_file(d + "/meta_data.txt")), os(out); std::string line; std::getline(os, line);
    long long prev_bs = 0, prev_n = 0;
    for (size_t i = 0; i < L.size() && r.ok; ++i) {
      long long bs, bn, lb, ln, len; std::string w = "meta data line " + std::to_string(i); std::getline(os, line);
      if (!(ms >> bs >> bn >> lb >> ln >> len)) { r.fail(w + " is missing"); break; }
      if (bs * bn != (long long)L[i].size()) r.fail(w + ": " + std::to_string(bn) + " blocks of " + std::to_string(bs) + " gates do not make " + std::to_string(L[i].size()));
      if (bs != 1LL << lb || bn != 1LL << ln) r.fail(w + ": wrong logarithms");
      if (len != (long long)line.size() + 1) r.fail(w + ": text length " + std::to_string(len) + ", the line has " + std::to_string(line.size() + 1));
      if (i && bn != prev_n) r.fail(w + ": the number of blocks changed");
      if (i && r.ok) for (long long b = 0; b < bn && r.ok; ++b) for (long long j = 0; j < bs; ++j) { Gate &x = L[i][j], &y = L[i][b * bs + j]; if (x.ty != y.ty || x.u + b * prev_bs != y.u || x.v + b * prev_bs != y.v) { r.fail(w + ": block " + std::to_string(b) + " is not a copy of block 0"); break; } }
      prev_bs = bs; prev_n = bn;
    }
    std::string rest; if (r.ok && ms >> rest) r.fail("text after the last meta data line");
  }
  return r;
}
static std::vector<std::string> shrink_gen(const std::string &s) {
  std::vector<std::string> o; GenCase g = de_gen(s);
  for (size_t i = 1; i < g.a.size(); ++i) { GenCase h = g; bool p2 = g.a[0] == 2 || g.a[0] == 4; long long lo = p2 ? 1 : g.a[0] == 5 && i == 1 ? 2 : g.a[0] == 1 && i == 2 ? 6 : i == 1 ? 2 : 1; h.a[i] = p2 ? g.a[i] / 2 : g.a[i] - 1; if (h.a[i] >= lo) o.push_back(ser_gen(h)); }
  return o;
}

// ---------------------------------------------------------------- PWS translators
struct Op { char k; long long t, a, b; };            // k: I input, C constant, + * X(or) N(aab) M(inus) ~(not) S(um) P(ass) O(utput)
struct Pws { std::string kind; long seed = 1; long long reps = 1; std::vector<Op> c, r; };
static std::string line(const Op &o) {
  auto V = [](long long x) { return "V" + std::to_string(x); }; std::string h = "P " + V(o.t) + " = ";
  switch (o.k) {
    case 'I': return h + "I" + std::to_string(o.a) + " E"; case 'C': return h + std::to_string(o.a) + " E";
    case 'O': return "P O" + std::to_string(o.t) + " = " + V(o.a) + " E";
  }
  const char *n = o.k == '+' ? "+" : o.k == '*' ? "*" : o.k == 'X' ? "XOR" : o.k == 'N' ? "NAAB" : o.k == 'M' ? "minus" : o.k == '~' ? "NOT" : o.k == 'S' ? "SS" : "PASS";
  return h + V(o.a) + " " + n + " " + V(o.b) + " E";
}
static std::string text(const std::vector<Op> &v) { std::string o; for (auto &x : v) o += line(x) + "\n"; return o; }
static std::string ser_pws(const Pws &p) { return "kind " + p.kind + "\nsrand " + std::to_string(p.seed) + "\nreps " + std::to_string(p.reps) + "\ncircuit\n" + text(p.c) + "rdl\n" + text(p.r) + "end\n"; }
static Op parse_line(const std::string &l) {
  std::istringstream is(l); std::string p, t, e, a, n, b; is >> p >> t >> e >> a >> n; Op o{0, atoll(t.c_str() + 1), 0, 0};
  if (n == "E") { if (t[0] == 'O') { o.k = 'O'; o.a = atoll(a.c_str() + 1); } else if (a[0] == 'I') { o.k = 'I'; o.a = atoll(a.c_str() + 1); } else { o.k = 'C'; o.a = atoll(a.c_str()); } return o; }
  is >> b; o.a = atoll(a.c_str() + 1); o.b = atoll(b.c_str() + 1);
  o.k = n == "+" ? '+' : n == "*" ? '*' : n == "XOR" ? 'X' : n == "NAAB" ? 'N' : n == "minus" ? 'M' : n == "NOT" ? '~' : n == "SS" ? 'S' : 'P'; return o;
}
static Pws de_pws(const std::string &s) {
  Pws p; std::istringstream is(s); std::string l; std::vector<Op> *cur = 0;
  while (std::getline(is, l)) { if (l == "circuit") cur = &p.c; else if (l == "rdl") cur = &p.r; else if (l == "end") break; else if (cur) cur->push_back(parse_line(l)); else { std::istringstream ls(l); std::string k; ls >> k; if (k == "kind") ls >> p.kind; else if (k == "srand") ls >> p.seed; else if (k == "reps") ls >> p.reps; } }
  return p;
}
static mpz_class Z(long long x) { return mpz_class(std::to_string(x)); }

// depth of every gate, as the longest path from the inputs
static std::map<long long, long long> levels(const std::vector<Op> &c) {
  std::map<long long, long long> lv;
  for (auto &o : c) switch (o.k) { case 'I': case 'C': lv[o.t] = 0; break; case 'O': break; case 'S': { long long m = 0; for (long long k = o.a; k <= o.b; ++k) m = std::max(m, lv[k]); lv[o.t] = m + 1; break; } default: lv[o.t] = 1 + std::max(lv[o.a], lv[o.b]); }
  return lv;
}
static std::string generate_pws(Rng &r, long, const std::string &kind) {
  Pws p; p.kind = kind; p.seed = (long)r.range(0, 1000000); p.reps = 1LL << r.weighted({90, 120, 90, 30, 2, 2, 2});
  long long nin = r.chance(1, 60) ? r.range(10, 120) : r.range(1, 9), id = 0; std::vector<char> kinds{'+', '*'};
  if (kind != "lanczos") for (char c : std::string("XNM~")) kinds.push_back(c);
  if (kind == "dp") kinds.push_back('S');
  bool gaps = kind != "lanczos" && r.chance(1, 4);
  // sub-circuit
  std::vector<long long> vs; std::map<long long, long long> lv;
  std::vector<long long> inum; for (long long i = 0; i < nin; ++i) inum.push_back(i);
  if (kind == "sha" && r.chance(1, 3)) for (long long i = nin - 1; i > 0; --i) std::swap(inum[i], inum[r.range(0, i)]);   // parser_sha goes by input number
  for (long long i = 0; i < nin; ++i) { p.c.push_back({'I', id, inum[i], 0}); vs.push_back(id); lv[id] = 0; id += 1 + (gaps && r.chance(1, 3) ? r.range(1, 5) : 0); }
  long long ng = r.range(1, r.chance(1, 60) ? 500 : r.chance(1, 6) ? 60 : 14);
  std::vector<char> pal = kinds; if (r.chance(1, 3)) pal = {r.pick(kinds), r.pick(kinds)};
  for (long long k = 0; k < ng; ++k) {
    Op o{r.pick(pal), id, r.pick(vs), r.pick(vs)};
    if (r.chance(1, 2)) o.a = vs[r.range(std::max(0LL, (long long)vs.size() - 4), vs.size() - 1)];   // deepen
    if (r.chance(1, 6)) o.b = o.a;
    if (o.k == '~') o.b = r.chance(3, 4) ? o.a : vs[0];
    if (o.k == 'S') { long long e = o.a; size_t ix = std::find(vs.begin(), vs.end(), o.a) - vs.begin(); while (ix + 1 < vs.size() && vs[ix + 1] == e + 1 && lv[e + 1] == lv[o.a] && !r.chance(1, 6)) ++ix, ++e; o.b = e; }
    p.c.push_back(o); vs.push_back(id); lv[id] = o.k == 'S' ? lv[o.a] + 1 : 1 + std::max(lv[o.a], lv[o.b]); id += 1 + (gaps && r.chance(1, 5) ? r.range(1, 5) : 0);
  }
  long long mx = 0; for (auto &x : lv) mx = std::max(mx, x.second);
  for (auto &x : lv) if (x.second == mx) { p.c.push_back({'O', id++, x.first, 0}); }
  // wiring of the copies
  long long m = r.range(1, 12), rid = r.chance(1, 6) ? r.range(0, 9) : 0, ion = 0; std::vector<long long> rv; GenOpt go; go.wide_inputs = true;
  int style = (int)r.range(0, 2);
  for (long long i = 0; i < m; ++i) { bool cst = style == 0 || (style == 1 && r.chance(1, 2)); p.r.push_back(cst ? Op{'C', rid, gen_input(r, go), 0} : Op{'I', rid, ion++, 0}); rv.push_back(rid++); }
  std::vector<long long> ps; for (long long i = 0; i < nin * p.reps; ++i) { long long x = r.pick(rv); p.r.push_back({'P', rid, x, x}); ps.push_back(rid++); }
  long long ob = r.chance(1, 2) ? rid : r.range(0, 50); for (size_t i = 0; i < ps.size(); ++i) p.r.push_back({'O', ob + (long long)i, ps[i], 0});
  return ser_pws(p);
}
static Result check_pws(const std::string &s) {
  Result r; Pws p = de_pws(s); std::string d = scratch(); const char *outn = p.kind == "dp" ? "test_circuit.txt" : p.kind == "sha" ? "sha_circuit.txt" : "lanczos_circuit.txt";
  unlink((d + "/" + outn).c_str()); unlink((d + "/meta_data_linear.txt").c_str());
  pbt::write_file(d + "/c.pws", text(p.c)); pbt::write_file(d + "/r.pws", text(p.r));
  std::vector<std::string> a{"c.pws", "r.pws"}; if (p.kind != "dp") a.push_back(std::to_string(p.reps));
  int rc = run(tool(p.kind == "dp" ? 0 : p.kind == "sha" ? 1 : 2), a, d, p.seed);
  if (rc == 121) abort();
  if (rc) { r.fail("the translator ended with status " + std::to_string(rc)); return r; }
  Parsed q = parse_circuit(pbt::read_file(d + "/" + outn)); if (!q.err.empty()) { r.fail("malformed circuit: " + q.err); return r; }
  auto V = eval(q.L); auto &o = V.back();
  // reference: values of the wiring variables, then every copy of the program on its own
  std::map<long long, mpz_class> rv; std::vector<long long> pass; std::set<long long> level0; for (auto &x : p.r) if (x.k == 'I' || x.k == 'C') level0.insert(x.t);
  for (auto &x : p.r) {
    if (x.k == 'C') rv[x.t] = md(Z(x.a));
    else if (x.k == 'I') { size_t pos = std::distance(level0.begin(), level0.find(x.t)) + (p.kind == "dp" ? 0 : 2); if (pos >= V[0].size()) { r.fail("input layer too small"); return r; } rv[x.t] = V[0][pos]; }   // the tool picks the value; read it back
    else if (x.k == 'P') { rv[x.t] = rv[x.a]; pass.push_back(x.t); }
  }
  std::vector<std::pair<long long, long long>> outs; for (auto &x : p.r) if (x.k == 'O') outs.push_back({x.t, x.a}); std::sort(outs.begin(), outs.end());
  auto lv = levels(p.c); long long mx = 0, nin = 0; for (auto &x : lv) mx = std::max(mx, x.second); for (auto &x : p.c) nin += x.k == 'I';
  std::vector<long long> last; for (auto &x : lv) if (x.second == mx) last.push_back(x.first);
  std::vector<std::vector<mpz_class>> want(p.reps); long long rank = 0; std::map<long long, long long> rk; { std::set<long long> ids; for (auto &x : p.c) if (x.k == 'I') ids.insert(x.t); for (long long x : ids) rk[x] = rank++; }
  for (long long c = 0; c < p.reps; ++c) {
    std::map<long long, mpz_class> v;
    for (auto &x : p.c) switch (x.k) {
      case 'I': { long long idx = p.kind == "dp" ? rk[x.t] : x.a; v[x.t] = rv[outs[c * nin + idx].second]; break; }
      case '+': v[x.t] = md(v[x.a] + v[x.b]); break; case '*': v[x.t] = md(v[x.a] * v[x.b]); break;
      case 'X': v[x.t] = md(v[x.a] + v[x.b] - 2 * v[x.a] * v[x.b]); break; case 'N': v[x.t] = md((1 - v[x.a]) * v[x.b]); break;
      case 'M': v[x.t] = md(v[x.a] - v[x.b]); break; case '~': v[x.t] = md(1 - v[x.a]); break;
      case 'S': { mpz_class t = 0; for (long long k = x.a; k <= x.b; ++k) t += v[k]; v[x.t] = md(t); break; }
    }
    for (long long x : last) want[c].push_back(v[x]);
  }
  std::set<char> ks; for (auto &x : p.c) ks.insert(x.k); for (char c : ks) r.label(std::string("op_") + c); r.label("copies_" + std::to_string(p.reps)); r.label("depth_" + std::to_string(mx));
  r.nontrivial = mx >= 2 || p.reps > 1;
  std::vector<mpz_class> exp(o.size(), 0); bool fits = true;
  auto put = [&](size_t i, const mpz_class &x) { if (i < exp.size()) exp[i] = x; else fits = false; };
  if (p.kind == "dp") { size_t bs = o.size() / p.reps; for (long long c = 0; c < p.reps; ++c) for (size_t j = 0; j < last.size(); ++j) { if (j >= bs) fits = false; put(c * bs + j, want[c][j]); } }
  else { size_t at = 1; for (size_t j = 0; j < last.size(); ++j) for (long long c = 0; c < p.reps; ++c) put(at++, want[c][j]); }
  if (!fits) { r.fail("the output layer has only " + std::to_string(o.size()) + " gates"); return r; }
  for (size_t i = 0; i < o.size(); ++i) if (o[i] != exp[i]) { r.fail("output gate " + std::to_string(i) + " of the circuit is " + S(o[i]) + ", the program says " + S(exp[i])); return r; }
  if (p.kind == "dp") {                               // data-parallel description
    std::istringstream ms(pbt::read_file(d + "/meta_data_linear.txt")); long long pbs = 0;
    for (size_t i = 0; i < q.L.size(); ++i) {
      long long par, bs, rn, lb, lr; std::string w = "meta data line " + std::to_string(i); if (!(ms >> par >> bs >> rn >> lb >> lr)) { r.fail(w + " is missing"); return r; }
      if (i < 2) { if (par) r.fail(w + " calls a wiring layer parallel"); if (i == 1) pbs = bs; continue; }
      if (!par || rn != p.reps || bs * rn != (long long)q.L[i].size() || bs != 1LL << lb || rn != 1LL << lr) { r.fail(w + " does not describe the layer"); return r; }
      for (long long c = 0; c < rn; ++c) for (long long j = 0; j < bs; ++j) { Gate &x = q.L[i][j], &y = q.L[i][c * bs + j]; if (x.ty != y.ty || (x.ty != 2 && (x.u + c * pbs != y.u || (x.ty != 6 && x.ty != 10 && x.v + c * pbs != y.v)))) { r.fail(w + ": copy " + std::to_string(c) + " differs from copy 0"); return r; } }
      pbs = bs;
    }
    std::string rest; if (r.ok && ms >> rest) r.fail("text after the last meta data line");
  }
  return r;
}
static std::vector<std::string> shrink_pws(const std::string &s) {
  std::vector<std::string> out; Pws p = de_pws(s); auto lv = levels(p.c);
  auto rebuild = [&](Pws q) {                          // recompute outputs
    std::vector<Op> c; for (auto &x : q.c) if (x.k != 'O') c.push_back(x); auto l = levels(c); long long mx = 0, id = 0; for (auto &x : l) { mx = std::max(mx, x.second); id = std::max(id, x.first + 1); } if (mx == 0) return;
    for (auto &x : c) if (x.k == 'S') for (long long k = x.a; k <= x.b; ++k) if (!l.count(k) || l[k] != l[x.a]) return;
    for (auto &x : l) if (x.second == mx) c.push_back({'O', id++, x.first, 0}); q.c = c; out.push_back(ser_pws(q)); };
  for (size_t i = 0; i < p.c.size(); ++i) if (p.c[i].k != 'I' && p.c[i].k != 'O') {
    bool used = false; for (auto &x : p.c) if (x.k != 'I' && x.k != 'O') { if (x.k == 'S') used |= x.a <= p.c[i].t && p.c[i].t <= x.b; else used |= x.a == p.c[i].t || x.b == p.c[i].t; }
    if (!used) { Pws q = p; q.c.erase(q.c.begin() + i); rebuild(q); }
    else { for (long long by : {p.c[i].a, p.c[i].b}) { Pws q = p; long long t = q.c[i].t; bool sum = false; q.c.erase(q.c.begin() + i); for (auto &x : q.c) { if (x.k == 'S' && x.a <= t && t <= x.b) sum = true; if (x.k == 'I' || x.k == 'O' || x.k == 'S') continue; if (x.a == t) x.a = by; if (x.b == t) x.b = by; } if (!sum) rebuild(q); } }
  }
  if (p.reps > 1) { Pws q = p; q.reps /= 2; std::vector<Op> o; long long np = 0, no = 0, nin = 0; for (auto &x : p.c) nin += x.k == 'I'; for (auto &x : p.r) { if (x.k == 'P' && np++ >= nin * q.reps) continue; if (x.k == 'O' && no++ >= nin * q.reps) continue; o.push_back(x); } q.r = o; out.push_back(ser_pws(q)); }
  for (size_t i = 0; i < p.r.size(); ++i) if (p.r[i].k == 'C' && p.r[i].a != 0 && p.r[i].a != 1) { Pws q = p; q.r[i].a = (long long)i; if (p.r[i].a != (long long)i) out.push_back(ser_pws(q)); }
  return out;
}

// ---------------------------------------------------------------- SHA-256 program and Merkle wiring (bin/sha256gen_merkle.py)
namespace sha {
static const uint32_t K[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static const uint32_t H0[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
typedef uint64_t F; static const F Q = (1ull << 61) - 1;           // the check outputs are compared with zero over a 61-bit prime field
static F red(__int128 x) { __int128 y = x % (__int128)Q; if (y < 0) y += Q; return (F)y; }
static F add(F a, F b) { F c = a + b; return c >= Q ? c - Q : c; } static F sub(F a, F b) { return a >= b ? a - b : a + Q - b; } static F mul(F a, F b) { return (F)((unsigned __int128)a * b % Q); }
static const size_t NIN = 7226;
// A forgery: one step of the computation is wrong and everything after it is computed consistently from the wrong value.
//  0 schedule word, 1 new a, 2 new e, 3 digest word, 4 message word bits differ from the word, 5 schedule word differs from its bits,
//  6 state bits differ from the state word, 7 carry digits that are not bits (same total), 8 digest digits that are not bits (word plus 2^32),
//  9 like 6 with the rounds using the bits for everything, 10 wrong bits made to add up by one digit that is not a bit (a carry digit, or any digit of the digest), 11 see witness_digit
struct Forge { int kind = -1; int idx = 0; uint64_t d = 0; };
// witness of one compression in the order of the sub-program's inputs; out = new chaining value
static std::vector<F> witness(const uint32_t *m, const uint32_t *h, const uint32_t *k, uint32_t *out, const Forge &f = Forge()) {
  std::vector<F> w; w.push_back(0); for (int i = 1; i < 34; ++i) w.push_back(1ull << (i + 1));
  uint64_t W[64], B[64], T[64]; auto wrong = [&](uint64_t x, int n) { uint64_t M = (1ull << n) - 1, y = (x + f.d) & M; return y == x ? x ^ 1 : y; };   // B: value of the bits, W: value of the word
  for (int i = 0; i < 64; ++i) {
    if (i < 16) { W[i] = B[i] = m[i]; if (f.kind == 4 && f.idx == i) B[i] = wrong(m[i], 32); }
    else { uint32_t a = (uint32_t)B[i - 15], b = (uint32_t)B[i - 2]; B[i] = (uint64_t)(rr(a, 7) ^ rr(a, 18) ^ (a >> 3)) + (rr(b, 17) ^ rr(b, 19) ^ (b >> 10)) + W[i - 16] + W[i - 7]; if (f.kind == 0 && f.idx == i) B[i] = wrong(B[i], 34); T[i] = B[i]; if (f.kind == 10 && f.idx == i) B[i] = wrong((uint32_t)B[i], 32); W[i] = (uint32_t)B[i]; if (f.kind == 5 && f.idx == i) W[i] = wrong(W[i], 32); }
  }
  auto digits = [&](uint64_t x, int n, bool bad) { size_t at = w.size(); for (int i = 0; i < n; ++i) w.push_back(x >> i & 1); if (bad) { w[at + n - 2] = add(w[at + n - 2], 2); w[at + n - 1] = sub(w[at + n - 1], 1); } };
  auto bits = [&](uint64_t x, int n) { digits(x, n, false); };
  // digits of y, with one of them changed so that the total is x
  auto solved = [&](uint64_t x, uint64_t y, int n, int j) { size_t at = w.size(); digits(y, n, false); w[at + j] = add(w[at + j], mul(sub(x % Q, y % Q), 1ull << ((61 - j) % 61))); };
  auto bad = [&](int at) { return f.kind == 10 && f.idx == at; };
  for (int i = 0; i < 64; ++i) w.push_back(W[i]);
  for (int i = 1; i < 16; ++i) bits(B[i], 32);
  for (int i = 16; i < 64; ++i) { if (bad(i)) solved(T[i], B[i] + (T[i] >> 32 << 32), 34, 32 + (int)(f.d & 1)); else digits(B[i], 34, f.kind == 7 && f.idx == i); }
  for (int i = 0; i < 64; ++i) w.push_back(k[i]);
  for (int i = 0; i < 8; ++i) w.push_back(h[i]);
  uint32_t sb[8], sw[8]; memcpy(sb, h, 32); memcpy(sw, h, 32); std::vector<uint64_t> A, E; std::vector<uint64_t> TA, TE; if (f.kind == 6 || f.kind == 9) sb[f.idx & 7] = (uint32_t)wrong(h[f.idx & 7], 32); if (f.kind == 9) sw[f.idx & 7] = sb[f.idx & 7];
  uint32_t hb[8]; memcpy(hb, sb, 32);
  for (int i = 0; i < 64; ++i) {
    uint64_t t1 = (uint64_t)sw[7] + (rr(sb[4], 6) ^ rr(sb[4], 11) ^ rr(sb[4], 25)) + ((sb[4] & sb[5]) ^ (~sb[4] & sb[6])) + k[i] + W[i];
    uint64_t t2 = (uint64_t)(rr(sb[0], 2) ^ rr(sb[0], 13) ^ rr(sb[0], 22)) + ((sb[0] & sb[1]) ^ (sb[0] & sb[2]) ^ (sb[1] & sb[2]));
    uint64_t a = t1 + t2, e = t1 + sw[3]; if (f.kind == 1 && f.idx == i) a = wrong(a, 35); if (f.kind == 2 && f.idx == i) e = wrong(e, 35);
    TA.push_back(a); TE.push_back(e); if (bad(64 + i)) a = (a >> 32 << 32) + wrong(a & 0xffffffffu, 32); if (bad(128 + i)) e = (e >> 32 << 32) + wrong(e & 0xffffffffu, 32);
    A.push_back(a); E.push_back(e);
    for (int j = 7; j > 0; --j) if (j != 4) { sb[j] = sb[j - 1]; sw[j] = sw[j - 1]; }
    sb[4] = sw[4] = (uint32_t)e; sb[0] = sw[0] = (uint32_t)a;
  }
  uint64_t o[8], to[8]; int oj = (int)(f.d % 33); size_t ow = w.size(); for (int i = 0; i < 8; ++i) { o[i] = (uint64_t)sw[i] + h[i]; if (f.kind == 3 && f.idx == i) o[i] = wrong(o[i], 33); to[i] = o[i]; if (bad(i)) o[i] = (o[i] >> 32 << 32) + wrong(o[i] & 0xffffffffu, 32); out[i] = (uint32_t)o[i]; w.push_back(f.kind == 8 && f.idx == i ? (uint64_t)out[i] + (1ull << 32) : out[i]); }
  for (int i = 0; i < 8; ++i) { if (bad(i)) { size_t at = w.size(); solved(to[i], o[i], 33, oj); F v = 0; for (int q = 0; q < 32; ++q) v = add(v, mul(w[at + q], 1ull << q)); w[ow + i] = v; } else digits(o[i], 33, f.kind == 8 && f.idx == i); }
  for (int i : {0, 1, 2, 4, 5, 6}) bits(hb[i], 32);
  for (int k2 = 0; k2 < 2; ++k2) for (int i = 0; i < 64; ++i) { uint64_t x = k2 ? E[i] : A[i], t = k2 ? TE[i] : TA[i]; int at = 64 + 64 * k2 + i; if (bad(at)) solved(t, x, 35, 32 + (int)(f.d % 3)); else digits(x, 35, f.kind == 7 && f.idx == at); }
  if (w.size() != NIN) abort();
  return w;
}
// A forgery with exactly one digit that is not a bit (two adjacent digits exchange weight, the other one stays a bit); everything after it is
// computed over the integers from the digits as they are. Returns false when the consequences do not fit the digit vectors.
static bool witness_digit(const uint32_t *m, const uint32_t *h, const uint32_t *k, const Forge &f, std::vector<F> &w) {
  typedef long long Z; typedef std::vector<Z> D; bool ok = true, done = false;
  int vec = f.idx, pos = (int)f.d;                     // vectors: 0..7 digest, 8..13 starting state, 16..63 / 1..15 schedule (+1000), 64..127 a, 128..191 e
  auto split = [&](Z x, int n, int id) { D d(n); if (x < 0 || x >> n) { ok = false; return d; } for (int i = 0; i < n; ++i) d[i] = x >> i & 1; if (id == vec) { int j = pos % (n - 1); if (d[j + 1]) { d[j] += 2; d[j + 1] = 0; } else { d[j] -= 2; d[j + 1] = 1; } done = true; } return d; };
  auto low = [](const D &d) { Z s = 0; for (int i = 0; i < 32; ++i) s += d[i] << i; return s; };
  auto x3 = [](Z a, Z b, Z c) { Z t = a + b - 2 * a * b; return t + c - 2 * t * c; };
  auto rot = [&](const D &d, int a, int b, int c, bool shift) { Z s = 0; for (int i = 0; i < 32; ++i) s += x3(d[(i + a) % 32], d[(i + b) % 32], shift ? (i + c < 32 ? d[i + c] : 0) : d[(i + c) % 32]) << i; return s; };
  w.clear(); w.push_back(0); for (int i = 1; i < 34; ++i) w.push_back(1ull << (i + 1));
  auto put = [&](Z x) { w.push_back(red(x)); }; auto puts = [&](const D &d) { for (Z x : d) put(x); };
  Z W[64]; D B[64];
  for (int i = 0; i < 64 && ok; ++i) if (i < 16) { W[i] = m[i]; if (i) B[i] = split(m[i], 32, 1000 + i); } else { B[i] = split(rot(B[i - 15], 7, 18, 3, true) + rot(B[i - 2], 17, 19, 10, true) + W[i - 16] + W[i - 7], 34, 1000 + i); W[i] = low(B[i]); }
  if (!ok) return false;
  for (int i = 0; i < 64; ++i) put(W[i]); for (int i = 1; i < 64; ++i) puts(B[i]); for (int i = 0; i < 64; ++i) put(k[i]); for (int i = 0; i < 8; ++i) put(h[i]);
  D sb[8], hb[8]; Z sw[8]; for (int i = 0; i < 8; ++i) { static const int at[8] = {8, 9, 10, -1, 11, 12, 13, -1}; hb[i] = sb[i] = split(h[i], 32, at[i]); sw[i] = h[i]; }
  std::vector<D> A, E;
  for (int i = 0; i < 64; ++i) {
    Z ch = 0, mj = 0; for (int j = 0; j < 32; ++j) { Z x = sb[4][j], y = sb[5][j], z = sb[6][j], p = x * y, q = z - x * z; ch += (p + q - 2 * p * q) << j; x = sb[0][j]; y = sb[1][j]; z = sb[2][j]; mj += x3(x * y, y * z, x * z) << j; }
    Z t1 = sw[7] + rot(sb[4], 6, 11, 25, false) + ch + (Z)k[i] + W[i], t2 = rot(sb[0], 2, 13, 22, false) + mj;
    A.push_back(split(t1 + t2, 35, 64 + i)); E.push_back(split(t1 + sw[3], 35, 128 + i)); if (!ok) return false;
    for (int j = 7; j > 0; --j) { sb[j] = sb[j - 1]; sw[j] = sw[j - 1]; }
    sb[4] = E.back(); sw[4] = low(E.back()); sb[0] = A.back(); sw[0] = low(A.back());
  }
  std::vector<D> o; for (int i = 0; i < 8; ++i) { o.push_back(split(sw[i] + h[i], 33, i)); if (!ok) return false; put(low(o.back())); }
  for (auto &d : o) puts(d); for (int i : {0, 1, 2, 4, 5, 6}) puts(hb[i]); for (auto &d : A) puts(d); for (auto &d : E) puts(d);
  if (w.size() != NIN) abort();
  return done;
}
struct Files { std::map<std::string, std::vector<Op>> f; };
static const Files &files() {
  static Files F_; static bool done = false; if (done) return F_; done = true;
  std::ifstream is(tool(0)); std::string l; std::vector<Op> *cur = 0;
  while (std::getline(is, l)) { if (l.compare(0, 6, "#FILE ") == 0) cur = &F_.f[l.substr(6)]; else if (cur && !l.empty()) { if (l.size() < 9 || l.compare(0, 2, "P ") || l.compare(l.size() - 2, 2, " E")) { cur->push_back({'?', 0, 0, 0}); continue; } cur->push_back(parse_line(l)); } }
  return F_;
}
// values of all declared outputs, bit-vector sums weighted by powers of two
static bool eval(const std::vector<Op> &c, const std::vector<F> &in, std::vector<F> &outs, std::string &err) {
  static std::vector<F> v; static std::vector<char> def; size_t n = 0; for (auto &o : c) if (o.k != 'O') n = std::max(n, (size_t)o.t + 1); v.assign(n, 0); def.assign(n, 0);
  size_t seen = 0;
  auto ok = [&](long long x) { return x >= 0 && x < (long long)n && def[x]; };
  for (auto &o : c) {
    if (o.k == 'I') { if (o.a < 0 || o.a >= (long long)in.size()) { err = "input number " + std::to_string(o.a) + " does not exist"; return false; } v[o.t] = in[o.a]; def[o.t] = 1; ++seen; continue; }
    if (o.k == 'O') { if (!ok(o.a)) { err = "an output names an undefined variable"; return false; } outs.push_back(v[o.a]); continue; }
    if (o.k == 'C') { v[o.t] = red(o.a); def[o.t] = 1; continue; }
    if (o.k == 'S') { F s = 0; __int128 w = 1; for (long long k = o.a; k <= o.b; ++k) { if (!ok(k)) { err = "undefined operand"; return false; } s = add(s, mul((F)(w % Q), v[k])); w = w * 2 % Q; } v[o.t] = s; def[o.t] = 1; continue; }
    if (!ok(o.a) || !ok(o.b)) { err = "V" + std::to_string(o.t) + " reads an undefined variable"; return false; }
    F a = v[o.a], b = v[o.b];
    switch (o.k) { case '+': v[o.t] = add(a, b); break; case '*': v[o.t] = mul(a, b); break; case 'M': v[o.t] = sub(a, b); break; case '~': v[o.t] = sub(1, a); break;
      case 'X': v[o.t] = sub(add(a, b), mul(2, mul(a, b))); break; case 'N': v[o.t] = sub(b, mul(a, b)); break; default: err = "unknown statement"; return false; }
    def[o.t] = 1;
  }
  if (seen != in.size()) { err = "the program declares " + std::to_string(seen) + " inputs, expected " + std::to_string(in.size()); return false; }
  return true;
}
static std::string generate_block(Rng &r, long) {
  std::string o = "iv " + std::to_string(r.weighted({1, 2})) + "\n"; uint32_t m[24];
  int st = (int)r.range(0, 4); for (int i = 0; i < 24; ++i) m[i] = st == 0 ? 0 : st == 1 ? 0xffffffffu : (uint32_t)(st == 2 && r.chance(1, 2) ? (1u << r.range(0, 31)) : r.next());
  o += "words"; for (int i = 0; i < 24; ++i) o += " " + std::to_string(m[i]); o += "\n";
  int k = r.weighted({1, 3, 4});
  if (k == 2) {
    int f = (int)r.range(0, 11), x = 0; if (f > 7 || r.chance(1, 4)) f = r.chance(1, 4) ? f : 11; switch (f) { case 0: case 5: x = (int)r.range(16, 63); break; case 1: case 2: x = (int)r.range(0, 63); break; case 3: case 8: x = (int)r.range(0, 7); break; case 4: x = (int)r.range(1, 15); break; case 6: case 9: x = r.pick(std::vector<int>{0, 1, 2, 4, 5, 6}); break; case 7: x = (int)r.range(16, 191); break; case 11: x = r.weighted({1, 1, 4, 4, 4}) ; x = x == 0 ? (int)r.range(0, 7) : x == 1 ? (int)r.range(8, 13) : x == 2 ? 1000 + (int)r.range(1, 63) : x == 3 ? (int)r.range(64, 127) : (int)r.range(128, 191); break; case 10: x = r.chance(1, 6) ? (int)r.range(0, 7) : (int)r.range(16, 191); break; }
    o += "forge " + std::to_string(f) + " " + std::to_string(x) + " " + std::to_string(f == 11 ? (unsigned long long)r.range(0, 33) : r.chance(1, 2) ? 1ull << r.range(0, 34) : r.next() >> 29) + "\n";
  }
  if (k == 1) { long long at = r.chance(1, 40) ? 0 : r.range(34, NIN - 1); long long dv = r.chance(1, 2) ? 1 : r.pick(std::vector<long long>{-1, 2, -2, 1LL << 31, 1LL << 32, -(1LL << 32), 4294967295LL, (long long)(r.next() >> 20)}); if (!dv) dv = 1; o += "change " + std::to_string(at) + " " + std::to_string(dv) + "\n"; }
  return o;
}
static Result check_block(const std::string &s) {
  Result r; std::istringstream is(s); std::string w; int iv = 0; uint32_t m[24] = {0}, out[8]; long long at = -1, dv = 0; Forge fg;
  while (is >> w) { if (w == "iv") is >> iv; else if (w == "words") { for (int i = 0; i < 24; ++i) { unsigned long x; is >> x; m[i] = (uint32_t)x; } } else if (w == "change") is >> at >> dv; else if (w == "forge") is >> fg.kind >> fg.idx >> fg.d; }
  auto it = files().f.find("SHA256_64.pws"); if (it == files().f.end()) { r.fail("the generator wrote no program"); return r; }
  std::vector<F> in;
  if (fg.kind == 11) { if (!witness_digit(m, iv ? H0 : m + 16, K, fg, in)) { r.label("forgery_11_does_not_fit"); return r; } }
  else in = witness(m, iv ? H0 : m + 16, K, out, fg);
  if (at >= 0) { F old = in[at]; bool bit = old <= 1 && (dv == 1 || dv == -1) && !(at >= 34 && at < 98); in[at] = bit && at >= 98 ? 1 - old : add(old, red(dv)); }
  std::vector<F> o; std::string err; if (!eval(it->second, in, o, err)) { r.fail("malformed program: " + err); return r; }
  size_t nz = 0; for (F x : o) nz += x != 0;
  r.nontrivial = true; r.label(fg.kind >= 0 ? "forgery_" + std::to_string(fg.kind) : at < 0 ? "honest_witness" : "one_value_changed");
  if (fg.kind >= 0) { if (!nz) r.fail("no check notices a computation that is wrong at one step (kind " + std::to_string(fg.kind) + ", step " + std::to_string(fg.idx) + ") and consistent from there on"); return r; }
  if (at < 0 && nz) r.fail(std::to_string(nz) + " checks reject the honest witness of a SHA-256 compression");
  if (at >= 0 && !nz) r.fail("no check notices that witness value " + std::to_string(at) + " was changed by " + std::to_string(dv));
  return r;
}
static std::vector<std::string> shrink_block(const std::string &s) {
  std::vector<std::string> v; size_t p = s.find("words"), e = s.find('\n', p); std::string z = "words"; for (int i = 0; i < 24; ++i) z += " 0"; std::string t = s.substr(0, p) + z + s.substr(e); if (t != s) v.push_back(t); return v;
}
static std::string generate_tree(Rng &r, long i) { return "leaves " + std::to_string(r.range(1, 4)) + "\nseed " + std::to_string(r.next() >> 1) + "\n"; }
static Result check_tree(const std::string &s) {
  Result r; std::istringstream is(s); std::string w; long long lg = 1; unsigned long long seed = 1; while (is >> w) { if (w == "leaves") is >> lg; else if (w == "seed") is >> seed; }
  Rng rg(seed); auto it = files().f.find("SHA256_64_merkle_" + std::to_string(lg) + "_rdl.pws"); if (it == files().f.end()) { r.fail("the generator wrote no wiring"); return r; }
  const std::vector<Op> &R = it->second; std::map<long long, long long> pass; std::vector<std::pair<long long, long long>> outs; std::map<long long, F> val; std::set<long long> inputs;
  for (auto &o : R) { if (o.k == 'P') pass[o.t] = o.a; else if (o.k == 'O') outs.push_back({o.t, o.a}); else if (o.k == 'C') val[o.t] = red(o.a); else if (o.k == 'I') inputs.insert(o.t); else { r.fail("unexpected statement in the wiring"); return r; } }
  std::sort(outs.begin(), outs.end()); size_t nb = ((size_t)2 << lg);                                       // one spare block
  if (outs.size() != nb * NIN) { r.fail("the wiring has " + std::to_string(outs.size()) + " outputs, expected " + std::to_string(nb * NIN)); return r; }
  // reference tree
  size_t leaves = (size_t)1 << lg; std::vector<std::array<uint32_t, 16>> msg(2 * leaves - 1); std::vector<std::array<uint32_t, 8>> dig(2 * leaves - 1); std::vector<std::vector<F>> wit(2 * leaves - 1);
  size_t below = 0, here = leaves, idx = 0;
  for (size_t lay = 0; lay <= (size_t)lg; ++lay, here /= 2) { size_t start = idx; for (size_t k = 0; k < here; ++k, ++idx) { for (int j = 0; j < 16; ++j) msg[idx][j] = lay == 0 ? (uint32_t)rg.next() : dig[below + 2 * k + (j >= 8)][j % 8]; wit[idx] = witness(msg[idx].data(), H0, K, dig[idx].data()); } below = start; }
  std::set<long long> leafvars;
  for (size_t b = 0; b < nb && r.ok; ++b) { const std::vector<F> &wv = wit[std::min(b, 2 * leaves - 2)]; for (size_t j = 0; j < NIN; ++j) {
    auto ps = pass.find(outs[b * NIN + j].second); if (ps == pass.end()) { r.fail("an output of the wiring is not a pass gate"); break; }
    long long x = ps->second; auto v = val.find(x); std::string where = "input " + std::to_string(j) + " of block " + std::to_string(b);
    if (v == val.end()) { if (!inputs.count(x)) { r.fail(where + " is wired to an undefined variable"); break; } val[x] = wv[j]; } else if (v->second != wv[j]) { r.fail(where + " is wired to a variable that already carries another value of an honest Merkle computation"); break; }
    if (b < leaves && j >= 34 && j < 50 && !leafvars.insert(x).second) { r.fail(where + ": two message words share one variable"); break; }
  } }
  // a parent must read its children's digest variables (not merely equal values)
  auto var = [&](size_t b, size_t j) { return pass[outs[b * NIN + j].second]; };
  size_t HO = 34 + 64 + 480 + 1632 + 64 + 8; below = 0; here = leaves / 2; idx = leaves;
  for (size_t lay = 1; lay <= (size_t)lg && r.ok; ++lay, here /= 2) { size_t start = idx; for (size_t k = 0; k < here; ++k, ++idx) for (int j = 0; j < 16; ++j) if (var(idx, 34 + j) != var(below + 2 * k + (j >= 8), HO + j % 8)) r.fail("message word " + std::to_string(j) + " of block " + std::to_string(idx) + " is not its child's digest"); below = start; }
  for (size_t b = 1; b < 2 * leaves - 1 && r.ok; ++b) for (size_t j = 34 + 64 + 480 + 1632; j < HO; ++j) if (var(b, j) != var(0, j)) r.fail("block " + std::to_string(b) + " does not share the public constants");
  std::set<long long> used; for (auto &p : pass) used.insert(p.second); r.nontrivial = true; r.label("leaves_" + std::to_string(leaves)); (void)used;
  return r;
}
}  // namespace sha

int main(int argc, char **argv) {
  std::vector<pbt::Mode> m;
  m.push_back({"gen_semantics", "a generator that computes something (not the empty-sum test circuit)", generate_gen, check_gen, shrink_gen});
  for (std::string k : {"dp", "sha", "lanczos"}) m.push_back({"pws_" + k, "two or more copies, or a program at least two levels deep", [k](Rng &r, long i) { return generate_pws(r, i, k); }, check_pws, shrink_pws});
  m.push_back({"sha_block", "every case: an honest witness, one with a single changed value, or a forgery that is consistent except for one step", sha::generate_block, sha::check_block, sha::shrink_block});
  m.push_back({"sha_tree", "every case: a Merkle tree of 2 to 16 leaves with random messages", sha::generate_tree, sha::check_tree, [](const std::string &) { return std::vector<std::string>(); }});
  return pbt::main_(argc, argv, m);
}
