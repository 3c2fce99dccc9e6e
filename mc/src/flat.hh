// Flat explorer: groups of enumerated cases, run by worker processes; a crashing or hanging case is a violation and the
// group goes on after it. Every case is identified by its text, so a case can be replayed alone.
#ifndef MC_FLAT_HH
#define MC_FLAT_HH
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <unordered_set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "known.hh"
// Memory mode (MC_MEM): every heap block is counted, filled with a pattern when allocated and when released; every group is
// run several times. Blocks that stay behind in every run are a leak; results that depend on the pattern come from
// uninitialised or released memory.
#ifdef MC_MEM
#include <malloc.h>
#include <errno.h>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
static long mc_live = 0; static int mc_off = 0; static unsigned char mc_fill = 0; static bool mc_fillon = false;
struct McOff { McOff() { mc_off++; } ~McOff() { mc_off--; } };
extern "C" __attribute__((used, visibility("default"))) void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) { if (!mc_off) mc_live++; if (mc_fillon) memset(p, mc_fill, n); } return p; }
extern "C" __attribute__((used, visibility("default"))) void free(void* p) { if (!p) return; if (!mc_off) mc_live--; if (mc_fillon) memset(p, mc_fill ^ 0x11, malloc_usable_size(p)); __libc_free(p); }
extern "C" __attribute__((used, visibility("default"))) void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p && !mc_off) mc_live++; return p; }
extern "C" __attribute__((used, visibility("default"))) void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return NULL; } size_t u = malloc_usable_size(p); void* q = __libc_realloc(p, n); if (q && mc_fillon && n > u) memset((char*)q + u, mc_fill, n - u); return q; }
extern "C" __attribute__((used, visibility("default"))) void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p && !mc_off) mc_live++; return p; }
extern "C" __attribute__((used, visibility("default"))) void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" __attribute__((used, visibility("default"))) int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
enum { MC_PASSES = 4 };
#endif
namespace flat {
using std::string; using std::vector;
struct Slot { volatile long group, idx, t0, done; volatile long cases, evals, results, states; };
static inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static inline string jesc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32) r += ' '; else r += c; } return r; }
struct Runner;
struct G {   // one group in one process
  Runner* R; string name; long idx = 0, skip = 0, raw = 0; string want; long describe = -1; string cur; std::function<string()> lazy; bool matched = false; Slot* sl = nullptr;
  std::unordered_set<size_t> res; long evals = 0, cases = 0, states = 0; std::map<string, int> perb; double deadline = 1e18; bool over = false;
#ifdef MC_MEM
  struct Rec { long idx, live; size_t h; }; vector<Rec> rec[MC_PASSES]; long only = -1; int pass = -1; size_t chash = 0; bool memkind = false;
  void mark() { lazy = nullptr; string().swap(cur); McOff o; if (pass >= 0) { if (rec[pass].size()) rec[pass].back().h = chash; chash = 0; rec[pass].push_back(Rec{idx, mc_live, 0}); } }
#endif
  void exec(const std::function<void(G&)>& f);
  bool next(std::function<string()> txt);   // true: execute this case
  void fail(const string& kind, const string& msg);
  void result(const string& r) {
#ifdef MC_MEM
    evals++; chash = chash * 1000003 + std::hash<string>()(r); return;
#endif
    if (res.size() < 2000000) res.insert(std::hash<string>()(r)); evals++; }
  void ok(size_t h) {
#ifdef MC_MEM
    evals++; chash = chash * 1000003 + h; return;
#endif
    if (res.size() < 2000000) res.insert(h); evals++; }
  void state() { states++; }
};
struct Runner {
  string dom; std::map<string, string> opt; vector<std::pair<string, std::function<void(G&)>>> groups; string outp; double T0, budget, hang; int NW; int tier = 0; long every = 1, reproduced = 0; bool replay = false;
  Runner(int argc, char** argv) { for (int i = 1; i + 1 < argc; i += 2) opt[argv[i] + 2] = argv[i + 1]; outp = opt["out"]; tier = atoi(opt["tier"].c_str()); T0 = now(); budget = opt.count("budget") ? atof(opt["budget"].c_str()) : 1e9; hang = opt.count("hang") ? atof(opt["hang"].c_str()) : 30; NW = opt.count("workers") ? atoi(opt["workers"].c_str()) : 4; dom = opt["dom"]; replay = opt.count("replay"); if (opt.count("every")) every = std::max(1, atoi(opt["every"].c_str())); }
  void group(const string& n, std::function<void(G&)> f) { groups.push_back({n, f}); }
  void append(const string& s) { int fd = open((outp + ".viol").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (write(fd, s.data(), s.size()) < 0) {} close(fd); }
  void emit(const string& grp, const string& kind, const string& text, const string& msg) {
    string sig = dom + "|" + kind + "|" + grp + " " + text; string b = known_bucket(sig, msg) + dom + "|" + grp + "|" + kind;
    if (replay) { printf("REPRODUCED\t%s\n  %s\n", sig.c_str(), msg.c_str()); fflush(stdout); reproduced++; return; }
    string art = "group\t" + grp + "\ncase\t" + text + "\n";
    append("{\"bucket\":\"" + jesc(b) + "\",\"sig\":\"" + jesc(sig.substr(0, 600)) + "\",\"msg\":\"" + jesc(msg.substr(0, 2000)) + "\",\"art\":\"" + jesc(art) + "\"}\n"); }
  int run() {
    if (replay) {
      string grp, cs; FILE* f = fopen(opt["replay"].c_str(), "r"); if (!f) return 3; static char b[1 << 20]; while (fgets(b, sizeof b, f)) { string l = b; while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.compare(0, 6, "group\t") == 0) grp = l.substr(6); if (l.compare(0, 5, "case\t") == 0) cs = l.substr(5); } fclose(f);
      for (auto& g : groups) if (g.first == grp) { G x; x.R = this; x.name = grp; x.want = cs; x.exec(g.second); if (!x.matched) { fprintf(stderr, "case not found\n"); return 3; } return reproduced ? 1 : 0; }
      fprintf(stderr, "group not found\n"); return 3; }
    if (opt.count("grps")) { std::set<string> keep; string t; for (char c : opt["grps"] + ",") { if (c == ',') { keep.insert(t); t.clear(); } else t += c; } vector<std::pair<string, std::function<void(G&)>>> n; for (auto& g : groups) { string h = g.first.substr(0, g.first.find(' ')); if (keep.count(g.first) || keep.count(h)) n.push_back(g); } groups = n; }
    unlink((outp + ".viol").c_str()); unlink((outp + ".sum").c_str());
    size_t N = groups.size(); Slot* sl = (Slot*)mmap(NULL, sizeof(Slot) * (N + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(sl, 0, sizeof(Slot) * (N + 1));
    std::map<pid_t, size_t> live; vector<long> skip(N, 0); vector<int> crashes(N, 0); size_t nextg = 0; long totcr = 0, capped = 0; vector<size_t> redo;
    auto spawn = [&](size_t g) { sl[g].t0 = (long)(now() * 1000); sl[g].done = 0; fflush(NULL); pid_t p = fork(); if (p) { live[p] = g; return; }
      G x; x.R = this; x.name = groups[g].first; x.skip = skip[g]; x.sl = &sl[g]; x.deadline = T0 + budget; long bc = sl[g].cases, be = sl[g].evals; x.cases = bc; x.evals = be; x.exec(groups[g].second); sl[g].cases = x.cases; sl[g].evals = x.evals; sl[g].states = x.states; sl[g].results = x.res.size(); sl[g].done = x.over ? 2 : 1; _exit(0); };
    auto descr = [&](size_t g, long idx) { int pp[2]; if (pipe(pp)) return string("?"); pid_t p = fork(); if (!p) { close(pp[0]); G x; x.R = this; x.name = groups[g].first; x.describe = idx; groups[g].second(x); if (write(pp[1], x.cur.data(), x.cur.size()) < 0) {} _exit(0); } close(pp[1]); string r; char b[4096]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) r.append(b, k); close(pp[0]); waitpid(p, NULL, 0); return r; };
    while (nextg < N || live.size() || redo.size()) {
      while ((int)live.size() < NW && (redo.size() || nextg < N)) { size_t g; if (redo.size()) { g = redo.back(); redo.pop_back(); } else g = nextg++; spawn(g); }
      int st; pid_t p = waitpid(-1, &st, WNOHANG);
      if (p <= 0) { usleep(2000); double t = now() * 1000; for (auto& l : live) if (!sl[l.second].done && t - sl[l.second].t0 > hang * 1000) kill(l.first, SIGKILL); continue; }
      if (!live.count(p)) continue; size_t g = live[p]; live.erase(p);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sl[g].done) { if (sl[g].done == 2) capped++; continue; }
      long idx = sl[g].idx; totcr++; crashes[g]++;
      string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGKILL ? "hang" : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
      emit(groups[g].first, "crash", idx ? descr(g, idx) : string("setup"), how);
      if (idx && crashes[g] < 25) { skip[g] = idx; redo.push_back(g); } else capped++; }
    long cs = 0, ev = 0, rs = 0, ss = 0; for (size_t g = 0; g < N; g++) { cs += sl[g].cases; ev += sl[g].evals; rs += sl[g].results; ss += sl[g].states; }
    string o = "{\"dom\":\"" + jesc(dom) + "\",\"states\":" + std::to_string(ss ? ss : cs) + ",\"transitions\":" + std::to_string(cs) + ",\"items\":" + std::to_string(cs) + ",\"evaluations\":" + std::to_string(ev) + ",\"distinct_results\":" + std::to_string(rs) + ",\"crashes\":" + std::to_string(totcr) + ",\"budget_capped\":" + std::to_string(capped) + ",\"wall\":" + std::to_string(now() - T0) + ",\"groups\":{"; for (size_t g = 0; g < N; g++) o += (g ? ",\"" : "\"") + jesc(groups[g].first) + "\":" + std::to_string(sl[g].cases); o += "},\"samples\":[";
    bool first = true; for (size_t k = 0; k < 3 && N; k++) { size_t g = (k * N / 3 + N / 7) % N; if (sl[g].cases < 2) continue; o += string(first ? "" : ",") + "\"" + jesc(groups[g].first + " " + descr(g, sl[g].cases / 2 + 1)) + "\""; first = false; } o += "]}\n";
    FILE* f = fopen((outp + ".sum").c_str(), "w"); if (!f) return 3; fputs(o.c_str(), f); fclose(f); return 0; }
};
inline void G::exec(const std::function<void(G&)>& f) {
#ifdef MC_MEM
  long c0 = cases, e0 = evals, s0 = states, tot[MC_PASSES]; static const unsigned char F[MC_PASSES] = {0x5A, 0xA5, 0x00, 0xFF};
  for (int p = 0; p < MC_PASSES; p++) { idx = raw = 0; cases = c0; evals = e0; states = s0; pass = p; mc_fill = F[p]; mc_fillon = true; { McOff o; rec[p].reserve(p ? rec[0].size() + 1 : 1024); } long b = mc_live; f(*this); idx = -1; mark(); tot[p] = mc_live - b; mc_fillon = false; if (over) return; }
  pass = -1; McOff o; memkind = true; bool same = true; for (int p = 1; p < MC_PASSES; p++) if (rec[p].size() != rec[0].size()) same = false;
  if (!same) { cur = want; lazy = nullptr; fail("uninit", "the enumeration itself depends on uninitialised memory"); return; }
  auto with = [&](size_t k, const string& kind, const string& msg) { if (R->replay) { cur = want; fail(kind, msg); return; } G x; x.R = R; x.name = name; x.describe = rec[0][k].idx; f(x); cur = x.cur; lazy = nullptr; fail(kind, msg); };
  for (size_t k = 0; k + 1 < rec[0].size(); k++) for (int p = 1; p < MC_PASSES; p++) if (rec[p][k].h != rec[0][k].h) { with(k, "uninit", "the results depend on the contents of uninitialised or released memory"); break; }
  bool leak = true; for (int p = 1; p < MC_PASSES; p++) if (tot[p] <= 0) leak = false;
  if (getenv("MCDBG")) { fprintf(stderr, "%s:", name.c_str()); for (int p = 0; p < MC_PASSES; p++) { long po = 0, ne = 0; for (size_t k = 0; k + 1 < rec[p].size(); k++) { long d = rec[p][k + 1].live - rec[p][k].live; (d > 0 ? po : ne) += d; } fprintf(stderr, " tot %ld (+%ld %ld)", tot[p], po, ne); } fprintf(stderr, "\n"); }
  // a block may move between the library's temporaries and a value: a case is to blame if it alone, repeated, leaves blocks
  if (leak) { long tried = 0, found = 0; double lim = R->replay ? 1e18 : now() + 20; for (size_t k = 0; k + 1 < rec[0].size() && found < 25 && now() < lim; k++) { bool l = true; for (int p = 1; p < MC_PASSES; p++) if (rec[p][k + 1].live - rec[p][k].live <= 0) l = false; if (!l && !R->replay) continue;
      long d = tot[3]; bool really = true; if (!R->replay) { tried++; if (sl) sl->t0 = (long)(now() * 1000); mc_off--; G y; y.R = R; y.name = name; y.only = rec[0][k].idx; for (int p = 0; p < 5; p++) { long b = mc_live; y.idx = y.raw = 0; f(y); d = mc_live - b; if (p > 1 && d <= 0) { really = false; break; } } mc_off++; }
      if (really) { found++; with(k, "leak", std::to_string(d) + " blocks are never released"); } }
    if (!found) with(0, "groupleak", "the group leaves " + std::to_string(tot[3]) + " blocks behind in each run, " + std::to_string(tried) + " cases tried alone"); }
  memkind = false;
#else
  f(*this);
#endif
}
inline bool G::next(std::function<string()> txt) {
  if (R->every > 1 && !R->replay && raw++ % R->every) return false;   // a coarser alphabet for the slower modes
#ifdef MC_MEM
  if (only >= 0) return ++idx == only;
  if (describe < 0 && idx >= 0 && !over && (R->replay || idx + 1 > skip)) { if (R->replay) { string t = txt(); if (t != want) { idx++; return false; } idx++; mark(); { McOff o; matched = true; alarm(100); } return true; } idx++; mark(); idx--; }
#endif
  if (over) return false; idx++;
  if (describe >= 0) { if (idx == describe) { cur = txt(); } return false; }
  if (R->replay) { string t = txt(); if (t != want) return false; matched = true; cur = t; lazy = nullptr; alarm(100); return true; }
  if (idx <= skip) return false;
  if (sl) { sl->idx = idx; { double t = now(); sl->t0 = (long)(t * 1000); if (t > deadline) { over = true; return false; } sl->cases = cases; sl->evals = evals; } }
  cases++;
#ifndef MC_MEM
  lazy = txt;
#endif
  return true; }
inline void G::fail(const string& kind, const string& msg) {
#ifdef MC_MEM
  if (!memkind) return;   // other properties are judged by the normal build
#endif
#ifdef MC_ASAN
  return;
#endif
 if (perb[kind]++ >= 25 && !R->replay) { string t = lazy ? lazy() : cur; string kb = known_bucket(R->dom + "|" + kind + "|" + name + " " + t, msg); if (perb[kb + kind]++ >= 25) return; } R->emit(name, kind, lazy ? lazy() : cur, msg); }
}
#endif
