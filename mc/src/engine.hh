// Explicit-state engine: states, views, transition and query checks.
#ifndef MC_ENGINE_HH
#define MC_ENGINE_HH
#include "base.hh"
#include "texpr.hh"
#include "ops.hh"
#include "dom.hh"
#include "known.hh"
#include <unordered_set>
#include <sys/mman.h>

struct View { bool ok = true; int I = 0, R = 0; vector<Cons> cons; Poly P; PPL::Grid G; bool hasmod = false, hasitv = false; string txt; View() : P(0), G(0) {} 
  bool has(const Pt& p) const { for (auto& c : cons) if (!cons_may(c, p)) return false; return true; } };

static inline PPL::Grid grid_of(const vector<Cons>& cs, size_t n) {
  PPL::Grid G(n, PPL::UNIVERSE);
  for (auto& c : cs) { if (!c.e.scalar() || (c.t != AP_CONS_EQ && c.t != AP_CONS_EQMOD)) { if (c.e.scalar()) { bool z = true; for (auto& x : c.e.c) if (x.lo.v != 0) z = false; if (z && ((c.t == AP_CONS_SUPEQ && c.e.k.lo.v < 0) || (c.t == AP_CONS_SUP && c.e.k.lo.v <= 0))) G = PPL::Grid(n, PPL::EMPTY); } continue; }
    vector<Q> k(n); for (size_t i = 0; i < n; i++) k[i] = c.e.c[i].lo.v; mpz_class d = c.e.k.lo.v.get_den(); for (auto& x : k) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), x.get_den_mpz_t()); if (c.t == AP_CONS_EQMOD) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), c.mod.get_den_mpz_t());
    for (auto& x : k) x *= Q(d); Q c2 = c.e.k.lo.v * Q(d); PPL::Linear_Expression e = ppl_lin(k, c2, n); mpz_class md(0); if (c.t == AP_CONS_EQMOD) { Q m2 = abs(c.mod) * Q(d); md = m2.get_num(); }
    if (md == 0) G.add_congruence((e %= 0) / 0); else G.add_congruence((e %= 0) / PPL::Coefficient(md)); }
  return G;
}
static inline View view_cons(ap_lincons0_array_t& arr, int I, int R) {
  View v; v.I = I; v.R = R; size_t n = I + R;
  for (size_t i = 0; i < arr.size; i++) { Cons c = read_lincons(&arr.p[i], n); if (c.t == AP_CONS_EQMOD && c.mod != 0) v.hasmod = true; if (!c.e.scalar()) v.hasitv = true; v.txt += c.str() + ";"; v.cons.push_back(c); }
  v.P = universe(n); for (auto& c : v.cons) if (c.e.scalar()) { if (c.t == AP_CONS_EQMOD && c.mod == 0) { Cons d = c; d.t = AP_CONS_EQ; add_cons(v.P, d, n); } else add_cons(v.P, c, n); }
  return v;
}
static inline View view(const Dom& d, ap_abstract0_t* a) {
  ap_abstract0_t* c = ap_abstract0_copy(d.man, a); ap_dimension_t dim = ap_abstract0_dimension(d.man, c);
  ap_lincons0_array_t arr = ap_abstract0_to_lincons_array(d.man, c);
  View v = view_cons(arr, dim.intdim, dim.realdim);
  if (d.kind == K_GRID || d.sys == "pkgrid") v.G = grid_of(v.cons, v.I + v.R);
  ap_lincons0_array_clear(&arr); ap_abstract0_free(d.man, c); return v;
}
static inline string dump(const Dom& d, ap_abstract0_t* a) {
  ap_abstract0_t* c = ap_abstract0_copy(d.man, a); char* b = 0; size_t s = 0; FILE* f = open_memstream(&b, &s); ap_abstract0_fdump(f, d.man, c); fclose(f); string r(b, s); free(b); ap_abstract0_free(d.man, c); return r;
}
static inline vector<Itv> to_box(const Dom& d, ap_abstract0_t* a, int n) { vector<Itv> v; ap_abstract0_t* c = ap_abstract0_copy(d.man, a); ap_interval_t** t = ap_abstract0_to_box(d.man, c); for (int i = 0; t && i < n; i++) v.push_back(interval_q(t[i])); if (t) ap_interval_array_free(t, n); ap_abstract0_free(d.man, c); return v; }

struct Hist { int kind; string txt; int I, R, a, b; };      // 0 init, 1 op
struct St { int I, R, depth; ap_abstract0_t* a; View v; vector<Pt> W; int hist; };

struct Viol { string sig, msg, art; };   // sig: dom|grp|tag|op text
struct Cfg { int tier = 0; std::set<string> tags, grps; bool all() const { return tags.empty(); } bool tag(const string& t) const { return tags.empty() || tags.count(t); } };
struct Sink { std::map<string, std::pair<long, vector<Viol>>> m; size_t keep = 3; long total = 0;
  void add(const string& bucket, const Viol& v) { auto& e = m[known_bucket(v.sig, v.msg) + bucket]; e.first++; total++; if (e.second.size() < keep) e.second.push_back(v); } };

// ---------- witnesses from a readable set ----------
static inline vector<Pt> witnesses(const View& v, size_t cap = 40) {
  vector<Pt> w; size_t n = v.I + v.R; if (v.P.is_empty()) return w; std::set<Pt> seen;
  auto put = [&](const Pt& p) { if (w.size() >= cap || !int_ok(p, v.I) || !v.has(p) || !seen.insert(p).second) return; w.push_back(p); };
  vector<Pt> vs, rs; for (auto& g : v.P.minimized_generators()) { Pt p(n); for (size_t i = 0; i < n && i < g.space_dimension(); i++) p[i] = Q(mpz_class(g.coefficient(PPL::Variable(i)))); if (g.is_point() || g.is_closure_point()) { Q d = Q(mpz_class(g.divisor())); for (auto& x : p) x /= d; vs.push_back(p); } else { rs.push_back(p); if (g.is_line()) { for (auto& x : p) x = -x; rs.push_back(p); } } }
  if (vs.empty()) return w;
  Pt bc(n); for (auto& p : vs) for (size_t i = 0; i < n; i++) bc[i] += p[i] / Q((long)vs.size());
  put(bc); for (auto& p : vs) put(p); for (auto& p : vs) { Pt q(n); for (size_t i = 0; i < n; i++) q[i] = (p[i] * 3 + bc[i]) / 4; put(q); }
  for (auto& r : rs) { Pt q(bc); for (size_t i = 0; i < n; i++) q[i] += r[i]; put(q); q = vs[0]; for (size_t i = 0; i < n; i++) q[i] += r[i] * 6; put(q); }
  grid_points(n, [&](const Pt& p) { if (w.size() < cap) put(p); });
  return w;
}
static inline Poly hull(const vector<Poly>& ps, size_t n) { if (ps.empty()) return emptyp(n); Poly r(ps[0]); for (size_t i = 1; i < ps.size(); i++) r.upper_bound_assign(ps[i]); return r; }
static inline Q rnd_out(const Q& q, const Dom& d) { if (d.exactnum) return q; Q r; round_one(q, AP_RTYPE_DOUBLE, AP_RDIR_UP, r); return r; }
// smallest value of the domain kind containing the pieces
static inline Poly best_of(const Dom& d, const vector<Poly>& ps, size_t n) {
  if (d.kind == K_POLY) { Poly h = hull(ps, n); if (!d.strict) h.topological_closure_assign(); return h; }
  if (ps.empty()) return emptyp(n);
  if (d.kind == K_EQ) { Poly h = hull(ps, n), r = universe(n); for (auto& c : h.minimized_constraints()) if (c.is_equality()) r.add_constraint(c); return r; }
  Poly r = universe(n);
  auto dir = [&](const vector<Q>& c, const Q& sc) { EQ m = minf(); for (auto& p : ps) { bool at; EQ s = psup(p, c, Q(0), at); if (ecmp(m, s) < 0) m = s; } if (!m.inf) { Q b = rnd_out(m.v * sc, d) / sc; vector<Q> k(c); for (auto& x : k) x = -x; r.add_constraint(ppl_lin(k, b, n) >= 0); } };
  for (size_t i = 0; i < n; i++) for (int s = -1; s <= 1; s += 2) { vector<Q> c(n, Q(0)); c[i] = s; dir(c, d.kind == K_OCT ? Q(2) : Q(1)); }
  if (d.kind == K_OCT) for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (int s = -1; s <= 1; s += 2) for (int t = -1; t <= 1; t += 2) { vector<Q> c(n, Q(0)); c[i] = s; c[j] = t; dir(c, Q(1)); }
  return r;
}
static inline bool covered(const Poly& V, const vector<Poly>& ps) {
  if (V.is_empty()) return true; for (auto& p : ps) if (p.contains(V)) return true; if (ps.size() < 2) return false;
  PPL::Pointset_Powerset<Poly> A(V), B(V.space_dimension(), PPL::EMPTY); for (auto& p : ps) B.add_disjunct(p);
  return B.geometrically_covers(A);
}
static inline string flags(ap_manager_t* m) { return string(m->result.flag_exact ? "E" : "-") + (m->result.flag_best ? "B" : "-"); }
static inline int exn_of(ap_manager_t* m) { ap_exclog_t* e = m->result.exclog; int r = AP_EXC_NONE; for (; e; e = e->tail) if (e->exn != AP_EXC_NOT_IMPLEMENTED || r == AP_EXC_NONE) r = e->exn; return r; }

struct Engine {
  Dom dom; Cfg cfg; vector<St> S; vector<Hist> H; std::map<std::pair<int, int>, std::shared_ptr<Alpha>> alphas; Sink sink; long transitions = 0, evals = 0, notimpl = 0; std::unordered_set<size_t> results; std::map<string, long> grpcount;
  char* slot = nullptr; size_t slotcap = 0; std::set<string>* skip = nullptr; string mod; long capped = 0; // crash record (shared)
  Alpha& alpha(int I, int R) { auto& p = alphas[{I, R}]; if (!p) p = std::make_shared<Alpha>(I, R, cfg.tier); return *p; }
  string hist_text(int h) const { std::ostringstream o; std::map<int, int> id; int k = 0; std::function<int(int)> rec = [&](int x) { auto it = id.find(x); if (it != id.end()) return it->second; const Hist& e = H[x]; int a = -1, b = -1; if (e.kind) { a = rec(e.a); if (e.b >= 0) b = rec(e.b); } o << k << "\t" << (e.kind ? "op" : "init") << "\t" << e.I << "\t" << e.R << "\t" << e.txt << "\t" << a << "\t" << b << "\n"; return id[x] = k++; }; rec(h); return o.str(); }
  string art(const string& what, int ha, int hb) const { // header + history
    std::ostringstream o; std::map<int, int> id; int k = 0; std::ostringstream hs; std::function<int(int)> rec = [&](int x) { auto it = id.find(x); if (it != id.end()) return it->second; const Hist& e = H[x]; int a = -1, b = -1; if (e.kind) { a = rec(e.a); if (e.b >= 0) b = rec(e.b); } hs << k << "\t" << (e.kind ? "op" : "init") << "\t" << e.I << "\t" << e.R << "\t" << e.txt << "\t" << a << "\t" << b << "\n"; return id[x] = k++; };
    int a = ha >= 0 ? rec(ha) : -1, b = hb >= 0 ? rec(hb) : -1; o << "domain\t" << dom.name << "\ntier\t" << cfg.tier << "\n" << hs.str() << "final\t" << what << "\t" << a << "\t" << b << "\n"; return o.str(); }
  void viol(const string& grp, const string& tag, const string& optxt, const string& msg, int ha, int hb, const string& what) {
    if (!cfg.tag(tag)) return; if (tag == "flags" && (!dom.exactnum || grp == "convert" || grp == "serialize" || grp == "repr")) return; Viol v; v.sig = dom.name + "|" + tag + "|" + optxt; v.msg = msg; v.art = art(what, ha, hb); sink.add(dom.name + "|" + grp + "|" + tag, v); }

  bool over(int e) const { return dom.mos && (e == AP_EXC_OVERFLOW || e == AP_EXC_OUT_OF_SPACE); }
  long overs = 0;
  bool reading_exact() const { return !dom.tracked(); }
  bool in_view(const View& v, const Pt& p) const { return v.has(p); }

  // 1: some mixed-integer point of A is mapped to p by the operation; 0: none; -1: unknown
  int has_origin(const St& A, const Op& op, const Pt& p) {
    size_t n = A.I + A.R; PPL::MIP_Problem M(n); PPL::Variables_Set iv; for (int i = 0; i < A.I; i++) iv.insert(i); M.add_to_integer_space_dimensions(iv);
    for (auto& c : A.v.P.minimized_constraints()) { if (c.is_strict_inequality()) return -1; M.add_constraint(c); }
    const vector<size_t>& D = op.fd.size() ? op.fd : op.ad;
    auto eq = [&](vector<Q> c, Q k) { M.add_constraint(ppl_lin(c, k, n) == 0); };
    for (size_t j = 0; j < n; j++) if (std::find(D.begin(), D.end(), j) == D.end()) { vector<Q> c(n, Q(0)); c[j] = 1; eq(c, -p[j]); }
    for (size_t k = 0; k < op.ad.size(); k++) { vector<Q> c; for (auto& x : op.ae[k].c) c.push_back(x.lo.v); c.resize(n, Q(0)); eq(c, op.ae[k].k.lo.v - p[op.ad[k]]); }
    return M.is_satisfiable() ? 1 : 0; }
  // ---- one transition ----
  // returns the resulting value (or NULL), its view and witnesses
  ap_abstract0_t* step(const St& A, const Op& op, const St* B, View& V, vector<Pt>& W) {
    ap_manager_t* m = dom.man; transitions++; grpcount[op.grp]++;
    auto bad = [&](const string& tag, const string& msg) { viol(op.grp, tag, op.txt, msg, A.hist, B ? B->hist : -1, "op\t" + op.txt); };
    auto ctx = [&]() { return " | arg: {" + A.v.txt + "}" + (B ? " arg2: {" + B->v.txt + "}" : "") + " result: {" + V.txt + "}"; };
    ap_abstract0_t* ca = ap_abstract0_copy(m, A.a); ap_abstract0_t* cb = B ? ap_abstract0_copy(m, B->a) : NULL;
    ap_manager_clear_exclog(m);
    ap_abstract0_t* r; { Limited lm(dom); r = op.run(m, false, ca, cb); }
    string fl = flags(m); int exn = exn_of(m); bool ov = over(exn); if (ov) overs++;
    if (!r) { bad("crash", "null result"); ap_abstract0_free(m, ca); if (cb) ap_abstract0_free(m, cb); return NULL; }
    if (exn == AP_EXC_NOT_IMPLEMENTED) notimpl++; else if (exn != AP_EXC_NONE && !ov) bad("exn", string("valid call raised ") + ap_name_of_exception[exn]);
    V = view(dom, r); evals++;
    results.insert(std::hash<string>()(V.txt));
    size_t n = op.OI + op.OR;
    if (V.I != op.OI || V.R != op.OR) { bad("sound", "wrong dimensions of the result" + ctx()); ap_abstract0_free(m, ca); if (cb) ap_abstract0_free(m, cb); return r; }
    // ---- soundness ----
    bool realonly = A.I == 0 && op.OI == 0;
    if (dom.kind == K_GRID) {
      if (op.gref) { PPL::Grid G(n); op.gref(&A.v.G, B ? &B->v.G : NULL, G); bool c1 = V.G.contains(G), c2 = G.contains(V.G); if (A.I == 0 && op.OI == 0) { if (!c1) bad("sound", "result misses points of the exact grid" + ctx()); else if (!c2) bad("precise", "result larger than the exact grid" + ctx()); if (fl[0] == 'E' && !c2) bad("flags", "flag exact on an inexact result" + ctx()); } }
    }
    vector<Poly> ps; bool complete = false, have = false;
    if (reading_exact() && dom.kind != K_GRID && op.ref) {
      Args x{&A.v.P, B ? &B->v.P : NULL}; complete = op.ref(x, ps); have = true;
      if (realonly) for (auto& p : ps) if (!V.P.contains(p)) { bad("sound", "result misses part of the concrete result: " + polys(p) + ctx()); break; }
      if (complete) {
        int cl = dom.kind == K_BOX ? CL_BOX : dom.kind == K_OCT ? CL_OCT : dom.kind == K_POLY ? (dom.strict ? CL_POLY | CL_POLYS : CL_POLY) : CL_EQ;
        bool claim = (op.claim & cl) && dom.exactnum && dom.algo >= 0 && (realonly || (dom.kind == K_POLY && op.grp != "meet_lincons" && op.grp != "subst_lin" && op.grp != "convert")); if (dom.kind == K_OCT && ps.empty() && (op.grp == "assign_lin" || op.grp == "subst_lin")) claim = false; if (ov) claim = false; /* octagon emptiness is detected lazily */ bool fb = realonly && fl[1] == 'B', fe = realonly && fl[0] == 'E';
        if (claim || fb) { Poly b = best_of(dom, ps, n); if (!b.contains(V.P)) { string t = " best: {" + polys(b) + "}" + ctx(); if (claim) bad("precise", "result is not the best one;" + t); if (fb) bad("flags", "flag best on a result that is not best;" + t); } }
        if (fe && !covered(V.P, ps)) bad("flags", "flag exact on an inexact result" + ctx());
      }
    }
    if (op.grp == "approximate" && dom.kind == K_POLY && realonly && !A.v.P.is_empty() && !ov) { int al = atoi(op.txt.c_str() + 12);
      auto kept = [&](const vector<Q>& cf, const char* what) { bool at; if (ecmp(psup(A.v.P, cf, Q(0), at), psup(V.P, cf, Q(0), at)) || ecmp(pinff(A.v.P, cf, Q(0), at), pinff(V.P, cf, Q(0), at))) bad("precise", string("approximation loses a ") + what + " bound" + ctx()); };
      if (al == 2 || al == 3) for (size_t i = 0; i < n; i++) { vector<Q> cf(n, Q(0)); cf[i] = 1; kept(cf, "variable"); if (al == 3) for (size_t j = i + 1; j < n; j++) for (int sg = -1; sg <= 1; sg += 2) { cf[j] = sg; kept(cf, "octagonal"); cf[j] = 0; } } }
    // mixed-integer exactness of projections and linear assignments: every point of the result has an origin in the argument
    if (cfg.tag("flags") && A.I > 0 && fl[0] == 'E' && dom.exactnum && reading_exact() && dom.kind != K_GRID && (op.fd.size() || op.ad.size()) && !A.v.hasmod && !A.v.hasitv)
      for (auto& p : witnesses(V)) { int h = has_origin(A, op, p); evals++; if (h == 0) { bad("flags", "flag exact, but the point " + pts(p) + " of the result comes from no point of the argument" + ctx()); break; } }
    WArgs wa; wa.WA = &A.W; wa.WB = B ? &B->W : NULL;
    if (reading_exact()) { wa.inA = [&](const Pt& p) { return A.v.has(p); }; if (B) wa.inB = [&](const Pt& p) { return B->v.has(p); }; }
    else { wa.inA = [&](const Pt& p) { return std::find(A.W.begin(), A.W.end(), p) != A.W.end(); }; if (B) wa.inB = [&](const Pt& p) { return std::find(B->W.begin(), B->W.end(), p) != B->W.end(); }; }
    W.clear(); bool needw = op.wit && (dom.tracked() || !have || !realonly);
    if (needw) { vector<Pt> o; op.wit(wa, o); std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); W = o;
      for (auto& p : W) if (!V.has(p)) { bad("sound", "result misses the concrete point " + pts(p) + ctx()); break; }
      if (dom.tracked() && !W.empty()) {
        vector<Itv> bx = to_box(dom, r, n); for (auto& p : W) { bool in = bx.size() == n; for (size_t i = 0; i < n && in; i++) if (!bx[i].has(p[i])) in = false; if (!in) { string t; for (auto& i : bx) t += i.str(); bad("sound", "bounding box " + t + " misses the concrete point " + pts(p) + ctx()); break; } }
        ap_abstract0_t* c = ap_abstract0_copy(m, r); if (ap_abstract0_is_bottom(m, c)) bad("sound", "result is bottom but contains " + pts(W[0]) + ctx()); ap_abstract0_free(m, c);
      } }
    // ---- arguments unchanged ----
    if (cfg.tag("args")) {
      auto same = [&](ap_abstract0_t* c, const St& s, const char* w) { View u = view(dom, c); if (u.txt == s.v.txt) return; bool eq = u.I == s.v.I && u.R == s.v.R && (dom.kind == K_GRID ? u.G == s.v.G : dom.tracked() ? samepts(u, s) : u.P == s.v.P); if (!eq) bad("args", string("operation changed its ") + w + " argument: now {" + u.txt + "}" + ctx()); };
      if (op.grp != "repr") same(ca, A, "first"); if (cb) same(cb, *B, "second");
    }
    if (cfg.tag("destr") && op.destr) {
      auto cmpres = [&](ap_abstract0_t* r2, const char* w) { View u = view(dom, r2); if (u.txt != V.txt) { bool eq = u.I == V.I && u.R == V.R && (dom.kind == K_GRID ? u.G == V.G : dom.tracked() ? true : u.P == V.P); if (eq && dom.tracked()) for (auto& p : W) if (!u.has(p)) eq = false; if (!eq) bad("destr", string(w) + " differs: {" + u.txt + "}" + ctx()); } };
      ap_abstract0_t* c2 = ap_abstract0_copy(m, A.a); ap_abstract0_t* b2 = B ? ap_abstract0_copy(m, B->a) : NULL;
      ap_abstract0_t* r2; { Limited lm(dom); r2 = op.run(m, true, c2, b2); } cmpres(r2, "destructive form"); if (b2 && cfg.tag("args")) { View u = view(dom, b2); if (u.txt != B->v.txt && !(dom.kind == K_GRID ? u.G == B->v.G : dom.tracked() || u.P == B->v.P)) bad("args", "destructive form changed its second argument: {" + u.txt + "}" + ctx()); ap_abstract0_free(m, b2); b2 = NULL; }
      if (r2) ap_abstract0_free(m, r2); if (b2) ap_abstract0_free(m, b2);
      if (B && B == &A && op.grp != "widening") { ap_abstract0_t* c3 = ap_abstract0_copy(m, A.a); ap_abstract0_t* r3; { Limited lm(dom); r3 = op.run(m, false, c3, c3); } cmpres(r3, "aliased operands"); ap_abstract0_free(m, r3); ap_abstract0_free(m, c3); }
    }
    ap_abstract0_free(m, ca); if (cb) ap_abstract0_free(m, cb);
    return r;
  }
  bool samepts(const View& u, const St& s) { for (auto& p : s.W) if (!u.has(p)) return false; return true; }

  // ---- queries on one value ----
  void queries(const St& A) {
    ap_manager_t* m = dom.man; size_t n = A.I + A.R; bool ro = A.I == 0; const Poly& P = A.v.P; vector<Pt> W = dom.tracked() ? A.W : witnesses(A.v);
    bool ex = dom.exactnum && dom.algo >= 0 && ro && (dom.kind == K_BOX || dom.kind == K_OCT || dom.kind == K_POLY);
    auto bad = [&](const string& tag, const string& q, const string& msg) { viol("query:" + q.substr(0, q.find('(')), tag, q, msg + " | value: {" + A.v.txt + "}", A.hist, -1, "query\t" + q); };
    auto start = [&]() { ap_manager_clear_exclog(m); evals++; ap_abstract0_t* c = ap_abstract0_copy(m, A.a); dom.limit(true); return c; };
    auto fin = [&](ap_abstract0_t* c, const string& q) { dom.limit(false); int e = exn_of(m); if (e != AP_EXC_NONE && e != AP_EXC_NOT_IMPLEMENTED && !over(e)) bad("exn", q, string("valid query raised ") + ap_name_of_exception[e]);
      if (cfg.tag("args")) { View u = view(dom, c); if (u.txt != A.v.txt && !(u.I == A.I && u.R == A.R && (dom.kind == K_GRID ? u.G == A.v.G : dom.tracked() ? samepts(u, A) : u.P == P))) bad("args", q, "query changed the value to {" + u.txt + "}"); }
      ap_abstract0_free(m, c); };
    auto rd = [&]() { return reading_exact() && dom.kind != K_GRID; };
    bool Pempty = rd() ? P.is_empty() : dom.kind == K_GRID ? A.v.G.is_empty() : false;
    auto fe = [&]() { return ro && m->result.flag_exact && rd(); };
    // truth: 1 true, 0 false, -1 unknown
    auto verdict = [&](const string& q, bool ans, int truth, bool claim) { bool f = fe(); if (ans && truth == 0) bad("query", q, "answered true but it is false"); if (!ans && truth == 1) { if (claim && ex && !over(exn_of(m))) bad("query", q, "answered false but it is true"); if (f) bad("flags", q, "flag exact on a negative answer that is wrong"); } };
    { auto c = start(); bool b = ap_abstract0_is_bottom(m, c); int t = rd() && ro ? Pempty : (!W.empty() ? 0 : dom.kind == K_GRID && ro ? (int)Pempty : -1); verdict("is_bottom()", b, t, true); fin(c, "is_bottom()"); }
    { auto c = start(); bool b = ap_abstract0_is_top(m, c); int t = rd() ? P.is_universe() : dom.kind == K_GRID ? A.v.G.is_universe() : -1; if (dom.tracked()) { t = -1; if (b) for (auto& x : A.v.cons) { vector<Pt> g; grid_points(n, [&](const Pt& p) { if (!cons_may(x, p)) t = 0; }); } } verdict("is_top()", b, t, true); fin(c, "is_top()"); }
    { auto c = start(); ap_dimension_t d = ap_abstract0_dimension(m, c); if ((int)d.intdim != A.I || (int)d.realdim != A.R) bad("query", "dimension()", "wrong dimension"); fin(c, "dimension()"); }
    auto chkitv = [&](const string& q, const Itv& v, const Poly* PP, const vector<Q>& cf, const Q& k, bool claim) { // PP: set over which cf.x+k is bounded
      if (isnan_eq(v.lo) || isnan_eq(v.hi)) { bad("query", q, "bound is not a number"); return; }
      if (PP->is_empty()) { if (claim && ex && !over(exn_of(m)) && !v.empty()) bad("query", q, "non-empty bound " + v.str() + " on an empty value"); return; }
      bool at; EQ s = psup(*PP, cf, k, at), i = pinff(*PP, cf, k, at); if (ecmp(v.hi, s) < 0 || ecmp(v.lo, i) > 0) { if (ro) bad("query", q, "bound " + v.str() + " misses the range [" + es(i) + "," + es(s) + "]"); }
      else if (ecmp(v.hi, s) > 0 || ecmp(v.lo, i) < 0) { if (claim && ex && !over(exn_of(m))) bad("query", q, "bound " + v.str() + " larger than the range [" + es(i) + "," + es(s) + "]"); if (fe()) bad("flags", q, "flag exact with bound " + v.str() + " larger than the range [" + es(i) + "," + es(s) + "]"); } };
    auto chkwit = [&](const string& q, const Itv& v, std::function<vector<Q>(const Pt&)> val) { for (auto& p : W) for (auto& y : val(p)) if (!v.has(y)) { bad("query", q, "bound " + v.str() + " misses the value " + qs(y) + " at " + pts(p)); return; } };
    for (size_t d = 0; d < n; d++) { string q = "bound_dimension(x" + std::to_string(d) + ")"; auto c = start(); ap_interval_t* i = ap_abstract0_bound_dimension(m, c, d); Itv v = interval_q(i); vector<Q> cf(n, Q(0)); cf[d] = 1; if (rd()) chkitv(q, v, &P, cf, Q(0), true); chkwit(q, v, [&](const Pt& p) { return vector<Q>{p[d]}; }); ap_interval_free(i); fin(c, q);
      q = "is_dimension_unconstrained(x" + std::to_string(d) + ")"; c = start(); bool b = ap_abstract0_is_dimension_unconstrained(m, c, d); int t = -1; if (rd()) { Poly u(P); u.unconstrain(PPL::Variable(d)); t = u == P; } else if (b && dom.kind == K_GRID) { PPL::Grid u(A.v.G); u.unconstrain(PPL::Variable(d)); t = u == A.v.G; } else if (b && !W.empty()) { t = -1; Pt p = W[0]; for (long k : {-9L, 0L, 11L}) { Pt z(p); z[d] = k; if (!A.v.has(z)) t = 0; } } if (!Pempty || b) verdict(q, b, t, !Pempty); fin(c, q);
      vector<Itv> tests = {Itv(EQ(mkq(0)), EQ(mkq(1))), Itv(EQ(mkq(-2)), EQ(mkq(2))), Itv(EQ(mkq(1)), pinf()), Itv(minf(), EQ(mkq(5, 2))), Itv(minf(), pinf()), Itv(mkq(1)), Itv(EQ(mkq(3)), EQ(mkq(4)))};
      if (rd() && !Pempty) { bool at; EQ s = psup(P, cf, Q(0), at), i2 = pinff(P, cf, Q(0), at); tests.push_back(Itv(i2, s)); if (!s.inf) tests.push_back(Itv(i2, EQ(s.v - mkq(1, 2)))); if (!i2.inf) tests.push_back(Itv(EQ(i2.v + mkq(1, 3)), s)); }
      int ti = 0; for (auto& tv : tests) { ti++; q = "sat_interval(x" + std::to_string(d) + "," + tv.str() + ")"; c = start(); ap_interval_t* iv = mk_interval(tv, ti % 3); bool b2 = ap_abstract0_sat_interval(m, c, d, iv); ap_interval_free(iv); int t2 = -1; if (rd() && ro) { if (Pempty) t2 = 1; else { bool at; EQ s = psup(P, cf, Q(0), at), i2 = pinff(P, cf, Q(0), at); t2 = ecmp(s, tv.hi) <= 0 && ecmp(i2, tv.lo) >= 0; } } else { for (auto& p : W) if (!tv.has(p[d])) t2 = 0; } verdict(q, b2, t2, true); fin(c, q); } }
    { auto c = start(); ap_interval_t** t = ap_abstract0_to_box(m, c); for (size_t d = 0; t && d < n; d++) { Itv v = interval_q(t[d]); vector<Q> cf(n, Q(0)); cf[d] = 1; string q = "to_box(x" + std::to_string(d) + ")"; if (rd()) chkitv(q, v, &P, cf, Q(0), true); chkwit(q, v, [&](const Pt& p) { return vector<Q>{p[d]}; }); } if (t) ap_interval_array_free(t, n); fin(c, "to_box()"); }
    Alpha& al = alpha(A.I, A.R); vector<Lin> F = al.forms(cfg.tier > 0 ? 2 : 1), IF = al.iforms(); size_t fi = 0;
    for (auto& l : F) { fi++; int rep = fi % 3, sp = (fi / 3) % 2; vector<Q> cf; for (auto& x : l.c) cf.push_back(x.lo.v); string q = "bound_linexpr(" + l.str() + ")"; auto c = start(); ap_linexpr0_t* e = mk_linexpr(l, sp, rep); ap_interval_t* i = ap_abstract0_bound_linexpr(m, c, e); Itv v = interval_q(i); bool cl = dom.kind != K_OCT || Alpha::octform(l); if (rd()) chkitv(q, v, &P, cf, l.k.lo.v, cl); chkwit(q, v, [&](const Pt& p) { return vector<Q>{eval_itv(l, p).lo.v}; }); ap_interval_free(i); fin(c, q);
      if (fi % 4 == 0 || n < 2) { TEP te = te_of_lin(l); q = "bound_texpr(" + tes(te) + ")"; c = start(); ap_texpr0_t* x = mk_texpr(te, rep); i = ap_abstract0_bound_texpr(m, c, x); v = interval_q(i); if (rd()) chkitv(q, v, &P, cf, l.k.lo.v, false); chkwit(q, v, [&](const Pt& p) { return vector<Q>{eval_itv(l, p).lo.v}; }); ap_interval_free(i); ap_texpr0_free(x); fin(c, q); }
      for (int t = 0; t < 5; t++) { if (t >= 3 && fi % 3) continue; if (n > 2 && (fi + t) % 3) continue; Cons cs; cs.e = l; cs.t = t; cs.mod = t == AP_CONS_EQMOD ? Q(2) : Q(0); q = "sat_lincons(" + cs.str() + ")"; c = start(); ap_lincons0_t lc = mk_lincons(cs, sp, rep); bool b = ap_abstract0_sat_lincons(m, c, &lc); int tr = -1;
        if (rd() && ro && t != AP_CONS_EQMOD) { if (Pempty) tr = 1; else { bool a1, a2; EQ s = psup(P, cf, l.k.lo.v, a1), i2 = pinff(P, cf, l.k.lo.v, a2); int ci = i2.inf ? -1 : sgn(i2.v), csn = s.inf ? 1 : sgn(s.v); tr = t == AP_CONS_SUPEQ ? ci >= 0 : t == AP_CONS_EQ ? ci == 0 && csn == 0 : t == AP_CONS_SUP ? (ci > 0 || (ci == 0 && !a2)) : ((ci > 0 || (ci == 0 && !a2)) || (csn < 0 || (csn == 0 && !a1))); } }
        else { for (auto& p : W) if (!cons_may(cs, p)) tr = 0; }
        bool cl = (dom.kind == K_POLY && t < 3) || (dom.kind == K_BOX && t < 3) || (dom.kind == K_OCT && t < 3 && Alpha::octform(l)); verdict(q, b, tr, cl); ap_lincons0_clear(&lc); fin(c, q);
        if ((fi + t) % 5 == 0) { TCons tcn; tcn.e = te_of_lin(l); tcn.t = t; tcn.mod = cs.mod; q = "sat_tcons(" + tcn.str() + ")"; c = start(); ap_tcons0_array_t ta = mk_tcons_array({tcn}, rep); bool b3 = ap_abstract0_sat_tcons(m, c, &ta.p[0]); verdict(q, b3, tr, false); ap_tcons0_array_clear(&ta); fin(c, q); } }
      ap_linexpr0_free(e); }
    for (auto& l : IF) { fi++; if (n > 2 && fi % 3) continue; string q = "bound_linexpr(" + l.str() + ")"; auto c = start(); ap_linexpr0_t* e = mk_linexpr(l, fi % 2, fi % 3); ap_interval_t* i = ap_abstract0_bound_linexpr(m, c, e); Itv v = interval_q(i); chkwit(q, v, [&](const Pt& p) { return samples(eval_itv(l, p)); }); ap_interval_free(i); ap_linexpr0_free(e); fin(c, q);
      if (fi % 2) { Cons cs; cs.e = l; cs.t = fi % 3 == 0 ? AP_CONS_EQ : fi % 3 == 1 ? AP_CONS_SUPEQ : AP_CONS_SUP; q = "sat_lincons(" + cs.str() + ")"; c = start(); ap_lincons0_t lc = mk_lincons(cs, fi % 2, fi % 3); bool b = ap_abstract0_sat_lincons(m, c, &lc); int tr = -1; for (auto& p : W) if (!cons_may(cs, p)) tr = 0; if (b && tr == 0) bad("query", q, "answered true but it is false"); ap_lincons0_clear(&lc); fin(c, q); } }
    size_t ti = 0; for (auto& te : al.texprs(cfg.tier)) { ti++; string q = "bound_texpr(" + tes(te) + ")"; auto c = start(); ap_texpr0_t* x = mk_texpr(te, ti % 3); ap_interval_t* i = ap_abstract0_bound_texpr(m, c, x); Itv v = interval_q(i); if (isnan_eq(v.lo) || isnan_eq(v.hi)) bad("query", q, "bound is not a number"); else chkwit(q, v, [&](const Pt& p) { return teval(te, p); }); ap_interval_free(i); ap_texpr0_free(x); fin(c, q);
      TCons tcn; tcn.e = te; tcn.t = ti % 2 ? AP_CONS_SUPEQ : ti % 3 ? AP_CONS_SUP : AP_CONS_EQ; tcn.mod = 0; q = "sat_tcons(" + tcn.str() + ")"; c = start(); ap_tcons0_array_t ta = mk_tcons_array({tcn}, ti % 3); bool b = ap_abstract0_sat_tcons(m, c, &ta.p[0]); int tr = -1; for (auto& p : W) { auto vs = teval(te, p); if (vs.size() && !tcons_may(tcn, p)) tr = 0; } if (b && tr == 0) bad("query", q, "answered true but it is false"); ap_tcons0_array_clear(&ta); fin(c, q); }
    gens(A);
  }
  // ---- generator / constraint duality ----
  void gens(const St& A) {
    if (!cfg.tag("gens") || dom.kind != K_POLY) return; ap_manager_t* m = dom.man; size_t n = A.I + A.R;
    auto bad = [&](const string& msg) { viol("query:to_generators", "gens", "to_generator_array()", msg + " | value: {" + A.v.txt + "}", A.hist, -1, "query\tto_generator_array()"); };
    ap_abstract0_t* c = ap_abstract0_copy(m, A.a); ap_manager_clear_exclog(m); ap_generator0_array_t g = ap_abstract0_to_generator_array(m, c); int e = exn_of(m); evals++;
    if (e == AP_EXC_NONE) {
      Poly P = emptyp(n); vector<std::pair<int, Pt>> gs; string txt;
      for (size_t i = 0; i < g.size; i++) { Lin l = read_linexpr(g.p[i].linexpr0, n); Pt p; for (auto& x : l.c) p.push_back(x.lo.v); gs.push_back({g.p[i].gentyp, p}); txt += std::to_string(g.p[i].gentyp) + pts(p) + ";"; }
      PPL::Generator_System sys; bool pt = false; for (int pass = 0; pass < 2; pass++) for (auto& x : gs) { mpz_class d(1); for (auto& q : x.second) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), q.get_den_mpz_t()); PPL::Linear_Expression le = ppl_lin(x.second, Q(0), n);  vector<Q> k; for (auto& q : x.second) k.push_back(q * Q(d)); le = ppl_lin(k, Q(0), n); bool isv = x.first == AP_GEN_VERTEX; if (isv != (pass == 0)) continue; if (isv) { P.add_generator(PPL::point(le, PPL::Coefficient(d))); pt = true; } else { bool z = true; for (auto& q : x.second) if (q != 0) z = false; if (z) { bad("null ray or line in {" + txt + "}"); continue; } if (!pt) { bad("ray without vertex in {" + txt + "}"); continue; } P.add_generator(x.first == AP_GEN_LINE || x.first == AP_GEN_LINEMOD ? PPL::line(le) : PPL::ray(le)); } }
      Poly V(A.v.P); if (V.is_empty()) { if (!P.is_empty()) bad("generators {" + txt + "} of an empty value"); } else { V.topological_closure_assign(); if (!(P == V)) bad("generators {" + txt + "} describe " + polys(P)); }
    }
    ap_generator0_array_clear(&g); ap_abstract0_free(m, c);
  }
  // ---- pairs ----
  void pair_queries(const St& A, const St& B) {
    ap_manager_t* m = dom.man; bool ro = A.I == 0; bool ex = dom.exactnum && dom.algo >= 0 && ro && (dom.kind == K_BOX || dom.kind == K_OCT || dom.kind == K_POLY || dom.kind == K_EQ || dom.kind == K_GRID);
    auto bad = [&](const string& tag, const string& q, const string& msg) { viol("query:" + q, tag, q, msg + " | values: {" + A.v.txt + "} {" + B.v.txt + "}", A.hist, B.hist, "pair\t" + q); };
    int leq, eq; if (dom.kind == K_GRID) { leq = B.v.G.contains(A.v.G); eq = A.v.G == B.v.G; } else if (dom.tracked()) { leq = -1; for (auto& p : A.W) if (!B.v.has(p)) leq = 0; eq = leq; for (auto& p : B.W) if (!A.v.has(p)) eq = 0; } else { leq = B.v.P.contains(A.v.P); eq = A.v.P == B.v.P; }
    for (int k = 0; k < 2; k++) { const char* q = k ? "is_eq" : "is_leq"; int truth = k ? eq : leq; ap_abstract0_t *a = ap_abstract0_copy(m, A.a), *b = ap_abstract0_copy(m, B.a); ap_manager_clear_exclog(m); evals++; dom.limit(true); bool r = k ? ap_abstract0_is_eq(m, a, b) : ap_abstract0_is_leq(m, a, b); dom.limit(false); bool fe = m->result.flag_exact && ro; int e = exn_of(m); if (e != AP_EXC_NONE && e != AP_EXC_NOT_IMPLEMENTED && !over(e)) bad("exn", q, "valid query raised an exception");
      bool wrong = r && truth == 0; if (wrong && !ro && !dom.tracked() && dom.kind != K_GRID) { wrong = false; if (k == 0 || true) { for (auto& p : witnesses(A.v)) if (!B.v.has(p)) wrong = true; if (k) for (auto& p : witnesses(B.v)) if (!A.v.has(p)) wrong = true; } }
      if (wrong) bad("query", q, "answered true but it is false"); if (!r && truth == 1) { if (ex && !over(e)) bad("query", q, "answered false but it is true"); if (fe && !dom.tracked()) bad("flags", q, "flag exact on a negative answer that is wrong"); }
      if (k && r && cfg.tag("hash")) { ap_abstract0_canonicalize(m, a); ap_abstract0_canonicalize(m, b); int h1 = ap_abstract0_hash(m, a), h2 = ap_abstract0_hash(m, b); if (h1 != h2 && ap_abstract0_is_eq(m, a, b)) bad("hash", "hash", "equal canonical values with different hashes"); }
      if (cfg.tag("args") && !dom.tracked()) { View u = view(dom, a), w = view(dom, b); if ((u.txt != A.v.txt && !(dom.kind == K_GRID ? u.G == A.v.G : u.P == A.v.P)) || (w.txt != B.v.txt && !(dom.kind == K_GRID ? w.G == B.v.G : w.P == B.v.P))) bad("args", q, "query changed its argument"); }
      ap_abstract0_free(m, a); ap_abstract0_free(m, b); }
  }
  // ---- building the state space ----
  std::map<string, int> index;
  string key(const View& v, ap_abstract0_t* a, const vector<Pt>& W) { std::ostringstream o; o << v.I << "," << v.R << "|"; if (dom.tracked()) { o << v.txt; for (auto& i : to_box(dom, a, v.I + v.R)) o << i.str(); o << "|"; for (auto& p : W) o << pts(p); } else o << dump(dom, a) << "|" << v.txt; return o.str(); }
  int add_state(ap_abstract0_t* a, const View& v, vector<Pt> W, int depth, const Hist& h) {
    string k = key(v, a, W); auto it = index.find(k); if (it != index.end()) { ap_abstract0_free(dom.man, a); return -1; }
    St s; s.I = v.I; s.R = v.R; s.a = a; s.v = v; s.depth = depth; s.W = W; s.hist = H.size(); H.push_back(h); int id = S.size(); index[k] = id; S.push_back(s); return id;
  }
  vector<Pt> capw(vector<Pt> W, size_t cap = 24) { if (W.size() <= cap) return W; vector<Pt> r; for (size_t i = 0; i < cap; i++) r.push_back(W[i * W.size() / cap]); return r; }
  ap_abstract0_t* make_init(const Init& in, View& v, vector<Pt>& W) {
    ap_manager_clear_exclog(dom.man); ap_abstract0_t* a; { Limited lm(dom); a = in.run(dom.man); } int e = exn_of(dom.man); v = view(dom, a); evals++;
    View ref; ref.I = in.I; ref.R = in.R; ref.P = in.P; // witnesses of the exact initial set
    { vector<Cons> cs; for (auto& c : in.P.constraints()) { Cons k; for (int i = 0; i < in.I + in.R; i++) k.e.c.push_back(Itv(Q(i < (int)c.space_dimension() ? mpz_class(c.coefficient(PPL::Variable(i))) : mpz_class(0)))); k.e.k = Itv(Q(mpz_class(c.inhomogeneous_term()))); k.t = c.is_equality() ? AP_CONS_EQ : c.is_strict_inequality() ? AP_CONS_SUP : AP_CONS_SUPEQ; cs.push_back(k); } ref.cons = cs; }
    W = witnesses(ref, dom.tracked() ? 14 : 40);
    H.push_back(Hist{0, in.txt, in.I, in.R, -1, -1}); int hid = H.size() - 1;
    auto bad = [&](const string& tag, const string& msg) { viol("init", tag, in.txt, msg + " result: {" + v.txt + "}", hid, -1, "init\t" + in.txt); };
    if (over(e)) ; else if (e != AP_EXC_NONE && e != AP_EXC_NOT_IMPLEMENTED) bad("exn", "valid constructor raised an exception");
    if (v.I != in.I || v.R != in.R) bad("sound", "wrong dimensions"); else { for (auto& p : W) if (!v.has(p)) { bad("sound", "initial value misses " + pts(p)); break; }
      if (dom.exactnum && reading_exact()) { if (dom.kind == K_POLY || dom.kind == K_BOX || dom.kind == K_OCT) { if (!over(e) && !in.P.contains(v.P) && in.I == 0) bad("precise", "initial value is not exact"); } } }
    H.pop_back(); return a;
  }
  void explore(const vector<std::pair<int, int>>& dims, int depth, size_t cap) {
    for (auto& dm : dims) {
      vector<int> fr; vector<int> inits; size_t base = S.size();
      for (auto& in : initials(dm.first, dm.second)) { View v; vector<Pt> W; if (slot) { H.push_back(Hist{0, in.txt, in.I, in.R, -1, -1}); string t = art("init\t" + in.txt, H.size() - 1, -1); H.pop_back(); if (skip && skip->count(t)) continue; snprintf(slot, slotcap, "%s", t.c_str()); } ap_abstract0_t* a = make_init(in, v, W); if (v.I != in.I || v.R != in.R) continue; int id = add_state(a, v, dom.tracked() ? W : vector<Pt>(), 0, Hist{0, in.txt, in.I, in.R, -1, -1}); if (id >= 0) { fr.push_back(id); inits.push_back(id); } }
      Alpha& al = alpha(dm.first, dm.second); size_t nin = inits.size();
      for (int dep = 1; dep <= depth; dep++) { vector<int> nx; for (int s : fr) for (auto& op : al.ops) { if (!op->core) continue; vector<int> bs{-1}; if (op->arity == 2) { bs.clear(); size_t nb = dep == 1 ? nin : std::min<size_t>(nin, 4); for (size_t j = 0; j < nb; j++) bs.push_back(inits[(j + 2) % nin]); }
          for (int b : bs) { if (S.size() - base >= cap) { capped++; goto done; } View v; vector<Pt> W; if (slot) { string t = art("op\t" + op->txt, S[s].hist, b >= 0 ? S[b].hist : -1); if (skip && skip->count(t)) continue; snprintf(slot, slotcap, "%s", t.c_str()); }
            St As = S[s]; St Bs; if (b >= 0) Bs = S[b]; ap_abstract0_t* r = step(As, *op, b >= 0 ? &Bs : NULL, v, W); if (!r) continue; if (v.I != op->OI || v.R != op->OR) { ap_abstract0_free(dom.man, r); continue; } int id = add_state(r, v, dom.tracked() ? capw(W) : vector<Pt>(), dep, Hist{1, op->txt, dm.first, dm.second, As.hist, b >= 0 ? Bs.hist : -1}); if (id >= 0) nx.push_back(id); } }
        fr = nx; }
      done:;
    }
    if (!dom.tracked()) for (auto& s : S) s.W = witnesses(s.v);
  }
};
#endif
