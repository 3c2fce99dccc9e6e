// Domain explorer: breadth-first state space, then every operation/query from every state.
// usage: mc_dom --dom D --dims 0,1;1,1 --depth N --cap N --tier T --tags a,b --grps a,b --queries 0/1 --pairs N --partners N --dest N --workers N --out FILE [--mods M]
//        mc_dom --replay FILE --tags a,b --out FILE
#include "engine.hh"
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

struct Slot { volatile long kind, a, b, op, idx, t0, done; volatile long transitions, evals, results, notimpl; char txt[16000]; };
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static vector<string> split(const string& s, char c) { vector<string> r; std::stringstream ss(s); string t; while (std::getline(ss, t, c)) if (!t.empty()) r.push_back(t); return r; }
static string jesc(const string& s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c < 32) r += ' '; else r += c; } return r; }
static string vjson(const string& bucket, const Viol& v) { return "{\"bucket\":\"" + jesc(bucket) + "\",\"sig\":\"" + jesc(v.sig) + "\",\"msg\":\"" + jesc(v.msg.substr(0, 3000)) + "\",\"art\":\"" + jesc(v.art) + "\"}\n"; }

struct Item { int kind; int a, b, op; };  // 0 op, 1 queries, 2 pair
int main(int argc, char** argv) {
  std::map<string, string> opt; for (int i = 1; i + 1 < argc; i += 2) opt[argv[i] + 2] = argv[i + 1];
  auto geti = [&](const char* k, long d) { return opt.count(k) ? atol(opt[k].c_str()) : d; };
  Cfg cfg; cfg.tier = geti("tier", 0); for (auto& t : split(opt["tags"], ',')) cfg.tags.insert(t); for (auto& t : split(opt["grps"], ',')) cfg.grps.insert(t);
  string outp = opt["out"];
  if (opt.count("replay")) {
    // file: domain, tier, SSA lines, final
    FILE* f = fopen(opt["replay"].c_str(), "r"); if (!f) return 3; string all; { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) all.append(b, k); } fclose(f);
    Engine E; E.cfg = cfg; vector<St> st; string fin;
    auto cols = [](const string& s) { vector<string> r; size_t p = 0; for (;;) { size_t q = s.find('\t', p); if (q == string::npos) { r.push_back(s.substr(p)); return r; } r.push_back(s.substr(p, q - p)); p = q + 1; } };
    std::stringstream ss(all); string l; int rc = 0;
    auto report = [&]() { for (auto& b : E.sink.m) for (auto& v : b.second.second) { printf("REPRODUCED\t%s\n", v.sig.c_str()); printf("  %s\n", v.msg.c_str()); rc = 1; } fflush(stdout); };
    while (std::getline(ss, l)) { if (l.empty() || l[0] == '#') continue; auto c = cols(l);
      if (c[0] == "domain") { E.dom = open_dom(c[1]); continue; } if (c[0] == "tier") { E.cfg.tier = atoi(c[1].c_str()); continue; }
      if (c[0] == "final") { string kind = c[1]; 
        E.sink.m.clear(); alarm(120);
        if (kind == "op") { const St& A = st[atoi(c[3].c_str())]; int b = atoi(c[4].c_str()); const St* B = b >= 0 ? &st[b] : NULL; bool done = false; for (auto& o : E.alpha(A.I, A.R).ops) if (o->txt == c[2]) { View v; vector<Pt> W; E.step(A, *o, B, v, W); done = true; break; } if (!done) { fprintf(stderr, "no op %s\n", c[2].c_str()); return 3; } }
        else if (kind == "query") { E.queries(st[atoi(c[3].c_str())]); }
        else if (kind == "pair") { E.pair_queries(st[atoi(c[3].c_str())], st[atoi(c[4].c_str())]); }
        else if (kind == "init") { const string& t = c[2]; const St& A = st[atoi(c[3].c_str())]; for (auto& in : initials(A.I, A.R)) if (in.txt == t) { View v; vector<Pt> W; E.make_init(in, v, W); } }
        report(); continue; }
      int I = atoi(c[2].c_str()), R = atoi(c[3].c_str()); St s; s.depth = 0;
      if (c[1] == "init") { bool ok = false; for (auto& in : initials(I, R)) if (in.txt == c[4]) { View v; vector<Pt> W; s.a = E.make_init(in, v, W); s.v = v; s.I = v.I; s.R = v.R; s.W = E.dom.tracked() ? W : witnesses(v); E.H.push_back(Hist{0, in.txt, I, R, -1, -1}); ok = true; break; } if (!ok) { fprintf(stderr, "no init %s\n", c[4].c_str()); return 3; } }
      else { int a = atoi(c[5].c_str()), b = atoi(c[6].c_str()); bool ok = false; for (auto& o : E.alpha(I, R).ops) if (o->txt == c[4]) { View v; vector<Pt> W; s.a = E.step(st[a], *o, b >= 0 ? &st[b] : NULL, v, W); s.v = v; s.I = v.I; s.R = v.R; s.W = E.dom.tracked() ? E.capw(W) : witnesses(v); E.H.push_back(Hist{1, o->txt, I, R, st[a].hist, b >= 0 ? st[b].hist : -1}); ok = true; break; } if (!ok) { fprintf(stderr, "no op %s\n", c[4].c_str()); return 3; } }
      s.hist = E.H.size() - 1; st.push_back(s);
    }
    return rc;
  }
  vector<std::pair<int, int>> dims; for (auto& d : split(opt["dims"], ';')) { auto p = split(d, ','); dims.push_back({atoi(p[0].c_str()), atoi(p[1].c_str())}); }
  int NW = geti("workers", 4); int depth = geti("depth", 2); size_t cap = geti("cap", 300); int partners = geti("partners", 20), ndest = geti("dest", 2), npairs = geti("pairs", 40); bool queries = geti("queries", 1), ops = geti("ops", 1); double hang = geti("hang", 30);
  double budget = geti("budget", 100000), T0 = now();
  Slot* slots = (Slot*)mmap(NULL, sizeof(Slot) * (NW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(slots, 0, sizeof(Slot) * (NW + 1));
  string vf = outp + ".viol"; unlink(vf.c_str());
  auto append = [&](const string& s) { int fd = open(vf.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644); if (write(fd, s.data(), s.size()) < 0) {} close(fd); };
  std::set<string> skip; string sumtxt;
  string sumf = outp + ".sum";
  for (int attempt = 0; attempt < 40; attempt++) {
    unlink(vf.c_str()); unlink(sumf.c_str());
    pid_t pd = fork();
    if (pd == 0) {
      Engine E; E.cfg = cfg; E.dom = open_dom(opt["dom"]); E.slot = slots[NW].txt; E.slotcap = sizeof slots[NW].txt; E.skip = &skip;
      if (opt.count("mod")) E.mod = opt["mod"];
      E.explore(dims, depth, cap);
      slots[NW].txt[0] = 0;
      for (auto& b : E.sink.m) for (auto& v : b.second.second) append(vjson(b.first, v));
      std::map<string, long> bfscount; for (auto& b : E.sink.m) bfscount[b.first] = b.second.first; 
      // items
      std::map<std::pair<int, int>, vector<int>> byd; for (size_t i = 0; i < E.S.size(); i++) byd[{E.S[i].I, E.S[i].R}].push_back(i);
      auto spread = [](const vector<int>& v, size_t k) { vector<int> r; if (v.size() <= k) return v; for (size_t i = 0; i < k; i++) r.push_back(v[i * v.size() / k]); return r; };
      vector<Item> items; std::set<std::pair<int, int>> dimset(dims.begin(), dims.end()); std::set<string> classes; long maxd = 0; long skipped_states = 0;
      for (size_t s = 0; s < E.S.size(); s++) { auto& A = E.S[s]; maxd = std::max<long>(maxd, A.depth); if (!dimset.count({A.I, A.R})) { skipped_states++; continue; } auto& same = byd[{A.I, A.R}];
        if (queries) items.push_back({1, (int)s, -1, -1});
        if (ops) { auto& al = E.alpha(A.I, A.R).ops; for (size_t k = 0; k < al.size(); k++) { auto& o = al[k]; if (cfg.grps.size() && !cfg.grps.count(o->grp)) continue;
          if (o->arity == 1) items.push_back({0, (int)s, -1, (int)k}); else if (o->bin2arg) { auto v = spread(same, ndest); for (int b : v) items.push_back({0, (int)s, b, (int)k}); items.push_back({0, (int)s, (int)s, (int)k}); } else { for (int b : spread(same, partners)) items.push_back({0, (int)s, b, (int)k}); items.push_back({0, (int)s, (int)s, (int)k}); } } }
        if (npairs) for (int b : spread(same, npairs)) items.push_back({2, (int)s, b, -1}); }
      vector<pid_t> pids(NW, 0); vector<long> startat(NW, 0);
      auto spawn = [&](int w, long from) { pid_t p = fork(); if (p) { pids[w] = p; return; }
        E.sink.m.clear(); E.transitions = E.evals = 0; E.results.clear(); Slot& sl = slots[w]; E.slot = nullptr; long bt = sl.transitions, be = sl.evals, br = sl.results, bn = sl.notimpl; E.notimpl = 0;
        long lastv = 0; std::map<string, size_t> written;
        auto flush = [&]() { if (E.sink.total != lastv) { lastv = E.sink.total; for (auto& b : E.sink.m) { auto& wr = written[b.first]; for (; wr < b.second.second.size(); wr++) append(vjson(b.first, b.second.second[wr])); } } };
        for (size_t i = from; i < items.size(); i++) { if ((int)(i % NW) != w) continue; if (now() - T0 > budget) { sl.done = 2; break; } const Item& it = items[i]; sl.idx = i; sl.kind = it.kind; sl.a = it.a; sl.b = it.b; sl.op = it.op; sl.t0 = (long)(now() * 1000);
          St& A = E.S[it.a];
          if (it.kind == 0) { View v; vector<Pt> W; ap_abstract0_t* r = E.step(A, *E.alpha(A.I, A.R).ops[it.op], it.b >= 0 ? &E.S[it.b] : NULL, v, W); if (r) ap_abstract0_free(E.dom.man, r); }
          else if (it.kind == 1) E.queries(A); else E.pair_queries(A, E.S[it.b]);
          sl.transitions = bt + E.transitions; sl.evals = be + E.evals; sl.results = br + E.results.size(); sl.notimpl = bn + E.notimpl; flush(); }
        if (!sl.done) sl.done = 1; fflush(NULL); _exit(0); };
      long crashes = 0, capped = 0;
      for (int w = 0; w < NW; w++) spawn(w, 0);
      int live = NW;
      while (live) { int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
        if (p <= 0) { usleep(50000); for (int w = 0; w < NW; w++) if (pids[w] && !slots[w].done && slots[w].t0 && now() * 1000 - slots[w].t0 > hang * 1000) { kill(pids[w], SIGKILL); } continue; }
        int w = -1; for (int k = 0; k < NW; k++) if (pids[k] == p) w = k; if (w < 0) continue; pids[w] = 0; Slot& sl = slots[w];
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && sl.done) { if (sl.done == 2) capped++; live--; continue; }
        crashes++; Item it = items[sl.idx]; Viol v; string what, grp; if (it.kind == 0) { auto& o = *E.alpha(E.S[it.a].I, E.S[it.a].R).ops[it.op]; what = "op\t" + o.txt; grp = o.grp; } else what = it.kind == 1 ? "query\tall" : "pair\tall", grp = "query";
        string how = WIFSIGNALED(stt) ? (WTERMSIG(stt) == SIGKILL ? "hang" : "signal " + std::to_string(WTERMSIG(stt))) : "exit " + std::to_string(WEXITSTATUS(stt)); v.sig = E.dom.name + "|crash|" + (it.kind == 0 ? what.substr(3) : what); v.msg = how; v.art = E.art(what, E.S[it.a].hist, it.b >= 0 ? E.S[it.b].hist : -1); append(vjson(E.dom.name + "|" + grp + "|crash", v));
        if (crashes > 400) { live--; capped++; continue; }
        sl.t0 = 0; spawn(w, sl.idx + 1); }
      std::map<string, long> gc; for (auto& it : items) gc[it.kind == 0 ? E.alpha(E.S[it.a].I, E.S[it.a].R).ops[it.op]->grp : it.kind == 1 ? "queries" : "pairs"]++;
      long tr = E.transitions, ev = E.evals, rs = 0, ni = E.notimpl; for (int w = 0; w < NW; w++) tr += slots[w].transitions, ev += slots[w].evals, rs += slots[w].results, ni += slots[w].notimpl;
      std::ostringstream o; o << "{\"dom\":\"" << E.dom.name << "\",\"states\":" << E.S.size() << ",\"expanded_states\":" << (E.S.size() - skipped_states) << ",\"maxdepth\":" << maxd << ",\"bfs_capped\":" << E.capped << ",\"bfs_transitions\":" << E.transitions << ",\"transitions\":" << tr << ",\"evaluations\":" << ev << ",\"distinct_results\":" << rs << ",\"not_implemented\":" << ni << ",\"items\":" << items.size() << ",\"crashes\":" << crashes << ",\"budget_capped\":" << capped << ",\"wall\":" << (now() - T0) << ",\"groups\":{"; bool first = true; for (auto& g : gc) { o << (first ? "" : ",") << "\"" << g.first << "\":" << g.second; first = false; } o << "},\"samples\":["; for (size_t k = 0; k < 3 && k < E.S.size(); k++) { auto& s = E.S[(k + 1) * E.S.size() / 4]; o << (k ? "," : "") << "\"" << jesc(E.art("", s.hist, -1)) << " => {" << jesc(s.v.txt) << "}\""; } o << "]}\n";
      FILE* f = fopen(sumf.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); _exit(0);
    }
    int st; double b0 = now(); bool killed = false;
    while (waitpid(pd, &st, WNOHANG) == 0) { usleep(20000); if (slots[NW].txt[0]) { long t = slots[NW].t0; static string last; static double lt; string cur = (char*)slots[NW].txt; if (cur != last) { last = cur; lt = now(); } else if (now() - lt > hang) { kill(pd, SIGKILL); killed = true; } } }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (!slots[NW].txt[0]) { fprintf(stderr, "explorer died (%d) with no operation in progress\n", st); return 3; }
    string a = (char*)slots[NW].txt; skip.insert(a); slots[NW].txt[0] = 0;
    Viol v; v.sig = opt["dom"] + "|crash|" + a.substr(a.rfind("final\t") + 6); while (!v.sig.empty() && v.sig.back() == '\n') v.sig.pop_back(); 
    { // strip kind and indices
      auto c = split(a.substr(a.rfind("final\t") + 6), '\t'); v.sig = opt["dom"] + "|crash|" + (c.size() > 1 ? c[1] : ""); }
    v.msg = killed ? "hang" : "signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st)); v.art = a; sumtxt += vjson(opt["dom"] + "|bfs|crash", v);
  }
  append(sumtxt);
  { FILE* f = fopen(sumf.c_str(), "r"); if (!f) { fprintf(stderr, "no summary\n"); return 3; } fclose(f); }
  return 0;
}
