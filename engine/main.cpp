// Path exploration driver.
#include "engine.h"
#include <chrono>
#include <deque>
#include <fstream>
#include <random>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern uint64_t g_maxInst;
extern std::vector<std::string> g_labels;
uint32_t labelId(const std::string &s);

struct Viol { int kind; std::string msg; std::vector<uint64_t> in; std::vector<uint8_t> w; };
struct Sample { std::vector<uint64_t> in; std::vector<uint8_t> w; std::vector<uint64_t> obs; };
struct Result {
  uint64_t paths[16] = {0}, nq = 0, nsat = 0, nunsat = 0, nknown = 0, nxcheck = 0, nxunk = 0, nfork = 0, ninst = 0, checks = 0, maxpc = 0;
  double solverTime = 0; uint64_t left = 0;
  std::map<std::string, Viol> viols;
  std::vector<Sample> samples;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, Sample> witness; // one completed path per label
};
static const char *kname[] = {"done", "assume", "panic", "expected_panic", "check", "memory", "leak", "abort", "limit", "unsupported", "deadlock", "unknown"};

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static unsigned nsamples = 64;
static std::mt19937_64 rng;
static uint64_t nend = 0;

static void finish(Exec &x, State *st, int kind, std::string msg, Result &r) {
  if (kind != E_CHECK) {
    try { int b = x.flush(*st); if (b >= 0) { kind = E_CHECK; msg = g_labels[b]; } } catch (PathEnd &e) { kind = e.kind; msg = e.msg; }
  }
  r.paths[kind]++;
  r.ninst += st->ninst;
  r.checks += st->nchecks;
  r.maxpc = std::max<uint64_t>(r.maxpc, st->pc.size());
  if (kind == E_DONE || kind == E_EXPANIC) {
    auto mk = [&]() {
      Sample sm; sm.in = st->wit; sm.w = st->inw;
      for (auto &o : st->obs) sm.obs.push_back(o.e ? (uint64_t)x.eval(o.e, st->wit) : o.c);
      return sm;
    };
    std::set<uint32_t> seen(st->marks.begin(), st->marks.end());
    for (uint32_t m : seen) { if (!r.reach[g_labels[m]]++ && kind == E_DONE) r.witness[g_labels[m]] = mk(); }
    if (kind == E_DONE) {
      nend++;
      if (r.samples.size() < nsamples) r.samples.push_back(mk());
      else { uint64_t j = rng() % nend; if (j < nsamples) r.samples[j] = mk(); }
    }
  } else if (kind != E_ASSUME) {
    std::string key = std::string(kname[kind]) + ": " + msg;
    if (!r.viols.count(key) && r.viols.size() < 50) r.viols[key] = Viol{kind, msg, st->wit, st->inw};
  }
}
static bool traceStack = getenv("SYMX_STACK");
static void runPath(Exec &x, State *st, Result &r) {
  x.s = st;
  int kind = E_DONE; std::string msg;
  uint64_t i0 = st->ninst, c0 = st->nchecks; (void)i0; (void)c0;
  try {
    for (;;) {
      Thread &t = st->threads[st->cur];
      if (t.status == 3 && st->cur == 0) break;
      if (t.status != 0) { pickNext(x); continue; }
      x.step();
    }
  } catch (PathEnd &e) { kind = e.kind; msg = e.msg; }
  if (traceStack && kind != E_DONE && kind != E_ASSUME && kind != E_EXPANIC) {
    fprintf(stderr, "-- %s: %s\n", kname[kind], msg.c_str());
    Thread &t = st->threads[st->cur];
    for (size_t i = t.frames.size(); i-- > 0;) {
      const Inst &in = t.frames[i].fn->code[t.frames[i].pc];
      fprintf(stderr, "   %s", t.frames[i].fn->name.c_str());
      if (in.line) for (auto &f : g_lines[in.line].frames) fprintf(stderr, " %s:%u", f.file.substr(f.file.rfind('/') + 1).c_str(), f.line);
      fprintf(stderr, "\n");
    }
  }
  finish(x, st, kind, msg, r);
  delete st;
}

static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static void putVec(std::ostream &o, const std::vector<uint64_t> &v) { o << v.size(); for (auto x : v) o << ' ' << x; o << '\n'; }
static void putW(std::ostream &o, const std::vector<uint8_t> &v) { o << v.size(); for (auto x : v) o << ' ' << (unsigned)x; o << '\n'; }
static void getVec(std::istream &i, std::vector<uint64_t> &v) { size_t n; i >> n; v.resize(n); for (auto &x : v) i >> x; }
static void getW(std::istream &i, std::vector<uint8_t> &v) { size_t n; i >> n; v.resize(n); for (auto &x : v) { unsigned u; i >> u; x = u; } }
static void putS(std::ostream &o, const std::string &s) { o << s.size() << ' '; o.write(s.data(), s.size()); o << '\n'; }
static std::string getS(std::istream &i) { size_t n; i >> n; i.get(); std::string s(n, 0); i.read(&s[0], n); return s; }
static void putSample(std::ostream &o, const Sample &s) { putVec(o, s.in); putW(o, s.w); putVec(o, s.obs); }
static Sample getSample(std::istream &i) { Sample s; getVec(i, s.in); getW(i, s.w); getVec(i, s.obs); return s; }

static void dump(const std::string &f, Exec &x, Result &r) {
  std::ofstream o(f);
  for (int i = 0; i < 16; i++) o << r.paths[i] << ' ';
  o << x.nq << ' ' << x.nsat << ' ' << x.nunsat << ' ' << x.nknown << ' ' << x.nxcheck << ' ' << x.nxunk << ' ' << x.nfork << ' ' << r.ninst << ' ' << r.checks << ' ' << r.maxpc << ' ' << x.solverTime << ' ' << r.left << '\n';
  o << r.viols.size() << '\n';
  for (auto &v : r.viols) { putS(o, v.first); o << v.second.kind << '\n'; putS(o, v.second.msg); putVec(o, v.second.in); putW(o, v.second.w); }
  o << r.samples.size() << '\n';
  for (auto &s : r.samples) putSample(o, s);
  o << r.reach.size() << '\n';
  for (auto &p : r.reach) { putS(o, p.first); o << p.second << ' ' << r.witness.count(p.first) << '\n'; if (r.witness.count(p.first)) putSample(o, r.witness[p.first]); }
  // coverage
  auto &fs = allFns();
  for (size_t i = 0; i < fs.size(); i++) {
    if (!fs[i]->entered) continue;
    std::set<uint32_t> ls;
    for (size_t j = 0; j < fs[i]->code.size(); j++) if (fs[i]->covered[j] && fs[i]->code[j].line) ls.insert(fs[i]->code[j].line);
    for (auto l : ls) for (auto &fr : g_lines[l].frames) { o << "L "; putS(o, fr.file); putS(o, fr.func); o << fr.line << '\n'; }
  }
  o << "E\n";
}
static std::map<std::string, std::set<unsigned>> covLines; static std::map<std::string, std::set<std::string>> covFns;
static void merge(const std::string &f, Result &r) {
  std::ifstream i(f);
  uint64_t t; double d;
  for (int k = 0; k < 16; k++) { i >> t; r.paths[k] += t; }
  uint64_t *fl[] = {&r.nq, &r.nsat, &r.nunsat, &r.nknown, &r.nxcheck, &r.nxunk, &r.nfork, &r.ninst, &r.checks};
  for (auto *p : fl) { i >> t; *p += t; }
  i >> t; r.maxpc = std::max(r.maxpc, t);
  i >> d; r.solverTime += d; i >> t; r.left += t;
  size_t n; i >> n;
  for (size_t k = 0; k < n; k++) { std::string key = getS(i); Viol v; i >> v.kind; v.msg = getS(i); getVec(i, v.in); getW(i, v.w); if (!r.viols.count(key) || r.viols[key].in.size() > v.in.size()) r.viols[key] = v; }
  i >> n; for (size_t k = 0; k < n; k++) r.samples.push_back(getSample(i));
  i >> n;
  for (size_t k = 0; k < n; k++) { std::string l = getS(i); i >> t; r.reach[l] += t; i >> t; if (t) { Sample s = getSample(i); if (!r.witness.count(l)) r.witness[l] = s; } }
  std::string tag;
  while (i >> tag && tag == "L") { std::string file = getS(i), fn = getS(i); unsigned ln; i >> ln; if (file.find("/.cargo/") == std::string::npos && file.find("/rustc/") == std::string::npos) { covLines[file].insert(ln); covFns[file].insert(fn); } }
}

int main(int argc, char **argv) {
  std::string bc, entry, out = "out.json"; unsigned workers = 8; double maxTime = 600; uint64_t seed = 1; unsigned frontier = 0; bool verbose = false;
  std::vector<uint64_t> args;
  uint64_t maxViol = 20;
  if (argc == 5 && !strcmp(argv[1], "--instrument")) return instrument(argv[2], argv[3], argv[4]);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--workers") workers = std::stoul(nx());
    else if (a == "--time") maxTime = std::stod(nx()); else if (a == "--seed") seed = std::stoull(nx()); else if (a == "--frontier") frontier = std::stoul(nx());
    else if (a == "--samples") nsamples = std::stoul(nx()); else if (a == "--maxinst") g_maxInst = std::stoull(nx()); else if (a == "-v") verbose = true;
    else if (a == "--arg") args.push_back(std::stoull(nx())); else if (a == "--maxviol") maxViol = std::stoull(nx());
    else bc = a;
  }
  double t0 = now();
  rng.seed(seed);
  if (!frontier) frontier = workers * 96;
  regBuiltins();
  loadProgram(bc.c_str());
  Fn *f = findFn(entry);
  if (!f || !f->hasBody) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  double tLoad = now() - t0;
  Exec x; x.initSolver();
  State *st = new State(*g_base);
  st->threads.emplace_back();
  x.s = st;
  x.pushCall(st->threads[0], f, nullptr);
  for (size_t i = 0; i < args.size() && i < f->nparams; i++) st->threads[0].regs[i] = C(args[i]);
  Result r;
  std::deque<State *> q; q.push_back(st);
  double deadline = t0 + maxTime;
  while (!q.empty() && q.size() < frontier && now() < deadline && r.viols.size() < maxViol) {
    State *c = q.front(); q.pop_front();
    runPath(x, c, r);
    for (auto *n : x.work) q.push_back(n);
    x.work.clear();
  }
  std::vector<std::string> files;
  if (!q.empty()) {
    std::vector<State *> fr(q.begin(), q.end());
    std::shuffle(fr.begin(), fr.end(), rng);
    struct Shared { volatile uint64_t next; volatile uint64_t viol; };
    Shared *sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->next = 0; sh->viol = r.viols.size();
    fflush(stdout); fflush(stderr);
    std::vector<pid_t> pids;
    for (unsigned w = 0; w < workers; w++) {
      std::string wf = out + ".w" + std::to_string(w);
      files.push_back(wf);
      pid_t p = fork();
      if (p == 0) {
        Exec y = x; y.nq = y.nsat = y.nunsat = y.nknown = y.nxcheck = y.nxunk = y.nfork = 0; y.solverTime = 0;
        Result wr; nend = 0; rng.seed(seed * 1000 + w);
        for (;;) {
          uint64_t i = __sync_fetch_and_add(&sh->next, 1);
          if (i >= fr.size()) break;
          std::vector<State *> stack{fr[i]};
          while (!stack.empty()) {
            if (now() > deadline || sh->viol >= maxViol) { wr.left += stack.size(); break; }
            State *c = stack.back(); stack.pop_back();
            size_t v0 = wr.viols.size();
            runPath(y, c, wr);
            if (wr.viols.size() > v0) __sync_fetch_and_add(&sh->viol, 1);
            for (auto *n : y.work) stack.push_back(n);
            y.work.clear();
          }
        }
        dump(wf, y, wr);
        _exit(0);
      }
      pids.push_back(p);
    }
    bool bad = false;
    for (auto p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { fprintf(stderr, "worker died: status %x\n", stt); bad = true; } }
    if (bad) return 4;
  }
  std::string pf = out + ".p";
  dump(pf, x, r);
  Result tot;
  merge(pf, tot); unlink(pf.c_str());
  for (auto &wf : files) { merge(wf, tot); unlink(wf.c_str()); }
  // report
  std::ofstream o(out);
  uint64_t allp = 0; for (auto p : tot.paths) allp += p;
  o << "{\"entry\":\"" << entry << "\",\"complete\":" << (tot.left == 0 ? "true" : "false") << ",\"left\":" << tot.left << ",\"paths\":{";
  for (int i = 0; i < 12; i++) o << (i ? "," : "") << "\"" << kname[i] << "\":" << tot.paths[i];
  o << "},\"queries\":" << tot.nq << ",\"sat\":" << tot.nsat << ",\"unsat\":" << tot.nunsat << ",\"implied\":" << tot.nknown << ",\"crosschecked\":" << tot.nxcheck << ",\"crosscheck_unknown\":" << tot.nxunk << ",\"forks\":" << tot.nfork << ",\"instructions\":" << tot.ninst << ",\"checks\":" << tot.checks
    << ",\"max_constraints\":" << tot.maxpc << ",\"solver_s\":" << tot.solverTime << ",\"load_s\":" << tLoad << ",\"wall_s\":" << (now() - t0) << ",\n\"reach\":{";
  bool first = true;
  for (auto &p : tot.reach) { o << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; }
  auto arr = [&](const std::vector<uint64_t> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; };
  auto arrw = [&](const std::vector<uint8_t> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << (unsigned)v[i]; o << "]"; };
  o << "},\n\"violations\":[";
  first = true;
  for (auto &v : tot.viols) { o << (first ? "" : ",\n") << "{\"kind\":\"" << kname[v.second.kind] << "\",\"msg\":\"" << esc(v.second.msg) << "\",\"inputs\":"; arr(v.second.in); o << ",\"widths\":"; arrw(v.second.w); o << "}"; first = false; }
  o << "],\n\"samples\":[";
  first = true;
  auto smp = [&](const Sample &s) { o << "{\"inputs\":"; arr(s.in); o << ",\"widths\":"; arrw(s.w); o << ",\"observed\":"; arr(s.obs); o << "}"; };
  std::shuffle(tot.samples.begin(), tot.samples.end(), rng);
  for (size_t i = 0; i < tot.samples.size() && i < nsamples; i++) { o << (first ? "" : ",\n"); smp(tot.samples[i]); first = false; }
  o << "],\n\"witnesses\":{";
  first = true;
  for (auto &p : tot.witness) { o << (first ? "" : ",\n") << "\"" << esc(p.first) << "\":"; smp(p.second); first = false; }
  o << "},\n\"coverage\":{";
  first = true;
  for (auto &p : covLines) {
    o << (first ? "" : ",\n") << "\"" << esc(p.first) << "\":{\"lines\":" << p.second.size() << ",\"functions\":[";
    bool f2 = true; for (auto &n : covFns[p.first]) { o << (f2 ? "" : ",") << "\"" << esc(n) << "\""; f2 = false; }
    o << "]}"; first = false;
  }
  o << "}}\n";
  o.close();
  if (verbose || true) {
    printf("%s: paths=%llu done=%llu assume=%llu expanic=%llu viol=%zu complete=%d left=%llu queries=%llu (sat %llu unsat %llu) implied=%llu xcheck=%llu/%llu solver=%.1fs wall=%.1fs load=%.1f inst=%llu\n", entry.c_str(), (unsigned long long)allp, (unsigned long long)tot.paths[0], (unsigned long long)tot.paths[1], (unsigned long long)tot.paths[3], tot.viols.size(), tot.left == 0, (unsigned long long)tot.left, (unsigned long long)tot.nq, (unsigned long long)tot.nsat, (unsigned long long)tot.nunsat, (unsigned long long)tot.nknown, (unsigned long long)tot.nxcheck, (unsigned long long)tot.nxunk, tot.solverTime, now() - t0, tLoad, (unsigned long long)tot.ninst);
    for (auto &v : tot.viols) printf("  %s\n", v.first.substr(0, 400).c_str());
  }
  return 0;
}
