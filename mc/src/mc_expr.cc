// Expressions over one numeric back end (-DNUM_...): evaluation, linearisation, boxization and backward propagation,
// against exact concrete evaluation at every point of a grid.
#include "base.hh"
#include "texpr.hh"
#include "numq.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
static const bool EXACT = B_RAT;
static itv_internal_t* I;
// ---- environments ----
typedef vector<IV> Env;
static string envs(const Env& e) { string s; for (auto& i : e) s += i.str(); return s; }
static IV mkiv(const char* a, const char* b) { auto p = [](const char* s) { if (!strcmp(s, "+")) return PINF(); if (!strcmp(s, "-")) return MINF(); Q q(s); q.canonicalize(); return EQ(q); }; return ivrnd(IV(p(a), p(b))); }
static const vector<IV>& ivals(int lvl) {
  static vector<IV> v[3], w; if (lvl < 0) { if (w.empty()) for (auto& t : {mkiv("-", "+"), mkiv("1", "2"), mkiv("-1", "3"), mkiv("1/2", "5/2")}) { bool dup = false; for (auto& j : w) if (iveq(t, j)) dup = true; if (!dup) w.push_back(t); } return w; }
  if (v[0].empty()) {
    const char* t[][3] = {{"-", "+", "0"}, {"0", "0", "0"}, {"1", "2", "0"}, {"-2", "-1", "1"}, {"-1", "3", "0"}, {"1", "+", "0"}, {"-", "-1", "1"}, {"2", "2", "1"}, {"0", "1", "1"}, {"-1", "0", "2"}, {"1/2", "5/2", "0"}, {"-3", "+", "2"}, {"-5/2", "-1/2", "1"}, {"-", "2", "1"}, {"-1", "-1", "2"}, {"-1/2", "1/2", "1"}, {"1/3", "3", "2"}, {"0", "+", "2"}};
    for (auto& r : t) { IV i = mkiv(r[0], r[1]); for (int k = atoi(r[2]); k < 3; k++) { bool dup = false; for (auto& j : v[k]) if (iveq(i, j)) dup = true; if (!dup) v[k].push_back(i); } }
  }
  return v[lvl];
}
static int TIER = 0;
static const vector<Q>& grid() { static vector<Q> g; if (g.empty()) { for (auto s : {"0", "1", "-1", "2", "3", "1/2", "-1/2", "-5/2", "7"}) g.push_back(Q(s)); if (TIER) for (auto s : {"-2", "5/2", "-3", "-9", "4/3"}) g.push_back(Q(s)); } return g; }
static IV intcanon(const IV& a) { return IV(eceil(a.lo), efloor(a.hi)); }
struct EnvA { itv_t* p; size_t n; explicit EnvA(const Env& e) : n(e.size()) { p = itv_array_alloc(n); for (size_t i = 0; i < n; i++) set(i, e[i]); } ~EnvA() { itv_array_free(p, n); } EnvA(const EnvA&) = delete;
  void set(size_t i, const IV& v) { if (v.bot) { setb(p[i]->inf, EQ(Q(-1))); setb(p[i]->sup, EQ(Q(-1))); } else { setb(p[i]->inf, eneg(v.lo)); setb(p[i]->sup, v.hi); } }
  Env get() const { Env e; for (size_t i = 0; i < n; i++) e.push_back(geti(p[i])); return e; } };
static bool same(const Env& a, const Env& b) { for (size_t i = 0; i < a.size(); i++) if (!iveq(a[i], b[i])) return false; return true; }
static bool inenv(const Env& e, const Pt& x) { for (size_t i = 0; i < e.size(); i++) if (!e[i].has(x[i])) return false; return true; }
// ---- expressions ----
static int uses(const TEP& t) { if (t->kind == 0) return 0; if (t->kind == 1) return 1 << t->d; return uses(t->a) | (t->b ? uses(t->b) : 0); }
static bool allreal(const TEP& t) { if (t->kind < 2) return true; return (t->rt == AP_RTYPE_REAL || t->op == AP_TEXPR_NEG) && allreal(t->a) && (!t->b || allreal(t->b)); }
static bool scalarcst(const TEP& t) { if (t->kind == 0) return t->c.scalar() && erep(t->c.lo); if (t->kind == 1) return true; return scalarcst(t->a) && (!t->b || scalarcst(t->b)); }
static bool hasop(const TEP& t, int op) { if (t->kind < 2) return false; return t->op == op || hasop(t->a, op) || (t->b && hasop(t->b, op)); }
static bool isreal(const TEP& t) { return t->kind < 2 || t->rt == AP_RTYPE_REAL || t->op == AP_TEXPR_NEG; }
static bool linear(const TEP& t) {   // interval linear with real operations (constants subexpressions: anything)
  if (!uses(t)) return true; if (t->kind == 1) return true; if (!isreal(t)) return false;
  switch (t->op) { case AP_TEXPR_NEG: case AP_TEXPR_CAST: return linear(t->a); case AP_TEXPR_ADD: case AP_TEXPR_SUB: return linear(t->a) && linear(t->b);
  case AP_TEXPR_MUL: return (!uses(t->a) && linear(t->b)) || (!uses(t->b) && linear(t->a)); case AP_TEXPR_DIV: return !uses(t->b) && linear(t->a); default: return false; } }
struct Vals { vector<std::pair<Pt, vector<Q>>> v; };
static Vals tabulate(const TEP& t, size_t intdim, bool all = false) { Vals r; int u = all ? 3 : uses(t); const vector<Q>& g = grid(); Pt x(2);
  for (size_t i = 0; i < g.size(); i++) { if (!(u & 1) && i) break; if (intdim > 0 && g[i].get_den() != 1) continue; x[0] = g[i];
    for (size_t j = 0; j < g.size(); j++) { if (!(u & 2) && j) break; if (intdim > 1 && g[j].get_den() != 1) continue; x[1] = g[j]; r.v.push_back({x, teval(t, x)}); } }
  return r; }
// points of the table inside an environment (dimensions that do not occur are free)
static bool inuse(const Env& e, const Pt& x, int u) { for (size_t i = 0; i < e.size(); i++) if ((u >> i & 1) && !e[i].has(x[i])) return false; return true; }
static void envlist(int u, size_t intdim, int lvl, std::function<void(const Env&)> f) { const vector<IV>& v = ivals(lvl); Env e(2, TOP());
  for (size_t i = 0; i < v.size(); i++) { if (!(u & 1) && i) break; e[0] = intdim > 0 ? intcanon(v[i]) : v[i]; if (e[0].bot) continue;
    for (size_t j = 0; j < v.size(); j++) { if (!(u & 2) && j) break; e[1] = intdim > 1 ? intcanon(v[j]) : v[j]; if (e[1].bot) continue; f(e); } } }
static const vector<std::pair<int, int>>& types(int lvl) {
  static vector<std::pair<int, int>> v[3];
  if (v[0].empty()) { for (int k = 0; k < 3; k++) v[k].push_back({AP_RTYPE_REAL, AP_RDIR_RND});
    for (int d = 0; d < 5; d++) { for (int k = 0; k < 3; k++) v[k].push_back({AP_RTYPE_INT, d});
      if (B_NATIVE && !B_FLT) continue;
      for (int rt : {AP_RTYPE_SINGLE, AP_RTYPE_DOUBLE, AP_RTYPE_EXTENDED, AP_RTYPE_QUAD}) { v[2].push_back({rt, d}); if ((rt == AP_RTYPE_SINGLE && d != AP_RDIR_ZERO) || (rt == AP_RTYPE_DOUBLE && d == AP_RDIR_UP)) v[1].push_back({rt, d}); if (rt == AP_RTYPE_SINGLE && d == AP_RDIR_NEAREST) v[0].push_back({rt, d}); } } }
  return v[lvl]; }
static bool intval(const TEP& t, size_t intdim) { if (t->kind == 0) return t->c.scalar() && t->c.lo.v.get_den() == 1; if (t->kind == 1) return t->d < intdim; return t->rt == AP_RTYPE_INT && t->op != AP_TEXPR_NEG && t->op != AP_TEXPR_MOD; }
// a modulo of integer type is about integers; one of floating type rounds nothing
static bool okmod(const TEP& t, size_t intdim) { if (t->kind < 2) return true; if (t->op == AP_TEXPR_MOD && t->rt == AP_RTYPE_INT && !(intval(t->a, intdim) && intval(t->b, intdim))) return false; return okmod(t->a, intdim) && (!t->b || okmod(t->b, intdim)); }
static vector<TEP> leaves(int lvl) { vector<TEP> v{td(0), td(1), tc(2), tc(Itv(Q(-1), Q(2)))};
  if (lvl >= 1) { v.push_back(tc(0)); v.push_back(tc(-3)); v.push_back(tc(1, 2)); v.push_back(tc(-1, 3)); v.push_back(tc(Itv(EQ(mkq(1, 2)), pinf()))); v.push_back(tc(Itv(minf(), EQ(Q(-1))))); }
  if (lvl >= 2) { v.push_back(tc(3)); v.push_back(tc(Itv(minf(), pinf()))); v.push_back(tc(Itv(Q(1), Q(3)))); if (!B_NATIVE || B_FLT) { v.push_back(tc(Itv(Q(pow2(100) + 1)))); v.push_back(tc(Itv(Q(pow2(-140) * 3)))); v.push_back(tc(Itv(Q(1 + pow2(-30))))); } }
  return v; }
static const int BIN[] = {AP_TEXPR_ADD, AP_TEXPR_SUB, AP_TEXPR_MUL, AP_TEXPR_DIV, AP_TEXPR_MOD, AP_TEXPR_POW}, UN[] = {AP_TEXPR_NEG, AP_TEXPR_CAST, AP_TEXPR_SQRT};
static void depth1(int op, const vector<TEP>& L, int tl, std::function<void(const TEP&)> f) {
  for (auto& t : types(tl)) { if (op == AP_TEXPR_NEG && t.first) break;
    if (op >= AP_TEXPR_NEG) { for (auto& a : L) f(tu(op, a, t.first, t.second)); }
    else for (auto& a : L) for (auto& b : L) { if (B_NATIVE && !B_FLT && op == AP_TEXPR_POW && b->kind == 0 && !b->c.scalar()) continue; f(tb(op, a, b, t.first, t.second)); } } }
static void depth2(int op, int op2, const vector<TEP>& L, int tl, std::function<void(const TEP&)> f) {
  if (op == AP_TEXPR_POW && op2 == AP_TEXPR_POW) return;
  depth1(op2, L, tl, [&](const TEP& a) { if (!uses(a)) return;
    for (auto& t : types(tl)) { if (op == AP_TEXPR_NEG && t.first) break; if (op >= AP_TEXPR_NEG) { f(tu(op, a, t.first, t.second)); continue; } for (auto& b : L) { f(tb(op, a, b, t.first, t.second)); if (op == AP_TEXPR_SUB || op == AP_TEXPR_DIV || op == AP_TEXPR_MOD) f(tb(op, b, a, t.first, t.second)); } } }); }
struct TX { ap_texpr0_t* e; explicit TX(const TEP& t, int rep = R_MPQ) : e(mk_texpr(t, rep)) {} ~TX() { ap_texpr0_free(e); } TX(const TX&) = delete; };
// ---- interval linear expressions ----
struct LE { vector<IV> c; vector<bool> eq; IV k; bool keq; bool bad; };
static LE readle(itv_linexpr_t* e, size_t n) { LE r; r.c.assign(n, IV(EQ(Q(0)), EQ(Q(0)))); r.eq.assign(n, true); r.bad = false; for (size_t i = 0; i < e->size; i++) { size_t d = e->linterm[i].dim; if (d >= n) { r.bad = true; continue; } r.c[d] = geti(e->linterm[i].itv); r.eq[d] = e->linterm[i].equality; if (ivnan(r.c[d])) r.bad = true; } r.k = geti(e->cst); r.keq = e->equality; if (ivnan(r.k)) r.bad = true; return r; }
static string les(const LE& l) { string s; for (size_t i = 0; i < l.c.size(); i++) if (!(l.eq[i] && iveq(l.c[i], IV(EQ(Q(0)), EQ(Q(0)))))) s += l.c[i].str() + "x" + std::to_string(i) + "+"; return s + l.k.str(); }
static IV scal(const IV& a, const Q& q) { if (a.bot) return a; if (q == 0) return IV(EQ(Q(0)), EQ(Q(0))); auto m = [&](const EQ& e) { return e.inf ? EQ(e.inf * sgn(q), true) : EQ(e.v * q); }; return q > 0 ? IV(m(a.lo), m(a.hi)) : IV(m(a.hi), m(a.lo)); }
static IV plus_(const IV& a, const IV& b) { if (a.bot || b.bot) return BOT(); IV r; r.lo = a.lo.inf || b.lo.inf ? MINF() : EQ(a.lo.v + b.lo.v); r.hi = a.hi.inf || b.hi.inf ? PINF() : EQ(a.hi.v + b.hi.v); return r; }
static IV atpt(const LE& l, const Pt& x) { IV r = l.k; for (size_t i = 0; i < l.c.size(); i++) r = plus_(r, scal(l.c[i], x[i])); return r; }
static IV mulI(const IV& a, const IV& b) { IV r; bool first = true; for (const EQ& x : {a.lo, a.hi}) for (const EQ& y : {b.lo, b.hi}) { int s = esgn(x) * esgn(y); EQ p = s == 0 ? EQ(Q(0)) : x.inf || y.inf ? EQ(s, true) : EQ(x.v * y.v); if (first || ecmp(p, r.lo) < 0) r.lo = p; if (first || ecmp(p, r.hi) > 0) r.hi = p; first = false; } return r; }
static IV overenv(const LE& l, const Env& e) { IV r = l.k; for (size_t i = 0; i < l.c.size(); i++) r = plus_(r, mulI(l.c[i], e[i])); return r; }
static bool wellformed(const LE& l) { if (l.bad) return false; for (size_t i = 0; i < l.c.size(); i++) if (l.eq[i] && (l.c[i].bot || ecmp(l.c[i].lo, l.c[i].hi))) return false; if (l.keq && (l.k.bot || ecmp(l.k.lo, l.k.hi))) return false; return true; }
struct LX { itv_linexpr_t e; LX() { itv_linexpr_init(&e, 0); } ~LX() { itv_linexpr_clear(&e); } LX(const LX&) = delete; };
struct LC { LE e; int t; EQ m; };
static bool may(const IV& v, int t, const EQ& m) { if (v.bot) return false; switch (t) { case AP_CONS_EQ: return v.has(Q(0)); case AP_CONS_SUPEQ: return esgn(v.hi) >= 0; case AP_CONS_SUP: return esgn(v.hi) > 0; case AP_CONS_DISEQ: return !(esgn(v.lo) == 0 && esgn(v.hi) == 0);
  default: if (m.inf || m.v == 0) return v.has(Q(0)); if (v.lo.inf || v.hi.inf) return true; return qfloor(v.hi.v / abs(m.v)) >= qceil(v.lo.v / abs(m.v)); } }
static bool must(const IV& v, int t, const EQ& m) { if (v.bot) return true; switch (t) { case AP_CONS_EQ: return esgn(v.lo) == 0 && esgn(v.hi) == 0; case AP_CONS_SUPEQ: return esgn(v.lo) >= 0; case AP_CONS_SUP: return esgn(v.lo) > 0; case AP_CONS_DISEQ: return !v.has(Q(0));
  default: return !v.lo.inf && !v.hi.inf && v.lo.v == v.hi.v && (m.inf || m.v == 0 ? v.lo.v == 0 : Q(v.lo.v / m.v).get_den() == 1); } }
struct LA { itv_lincons_array_t a; LA() { itv_lincons_array_init(&a, 0); } ~LA() { itv_lincons_array_clear(&a); } LA(const LA&) = delete; };
static vector<LC> readla(itv_lincons_array_t* a, size_t n) { vector<LC> r; for (size_t i = 0; i < a->size; i++) { LC c; c.e = readle(&a->p[i].linexpr, n); c.t = a->p[i].constyp; c.m = getn(a->p[i].num); r.push_back(c); } return r; }
static string las(const vector<LC>& a) { string s; for (auto& c : a) s += (s.empty() ? "" : " & ") + les(c.e) + CT[c.t] + (c.t == AP_CONS_EQMOD ? es(c.m) : ""); return s; }
static bool allmay(const vector<LC>& a, const Pt& x) { for (auto& c : a) if (!may(atpt(c.e, x), c.t, c.m)) return false; return true; }
static bool allmust(const vector<LC>& a, const Pt& x) { for (auto& c : a) if (!must(atpt(c.e, x), c.t, c.m)) return false; return true; }
static string vals(const vector<Q>& v) { string s = "{"; for (auto& q : v) s += (s.size() > 1 ? "," : "") + qs(q); return s + "}"; }
static size_t hh(const string& s) { return std::hash<string>()(s); }

// ---- evaluation and linearisation of one expression in one environment ----
static void eval_one(G& g, const TEP& t, ap_texpr0_t* e, const Vals& V, const Env& env, size_t intdim) {
  int u = uses(t); EnvA A(env);
  It r; itv_eval_ap_texpr0(I, r.i, e, A.p); IV R = geti(r.i);
  if (ivnan(R)) { g.fail("nan", "NaN bound"); return; } if (!R.bot && !iscanon(r.i)) g.fail("canon", "not canonical");
  if (!same(A.get(), env)) g.fail("args", "the environment has changed");
  bool allpt = true; for (size_t i = 0; i < env.size(); i++) if ((u >> i & 1) && (env[i].lo.inf || ecmp(env[i].lo, env[i].hi))) allpt = false;
  for (auto& pv : V.v) if (inuse(env, pv.first, u)) { for (auto& q : pv.second) if (!R.has(q)) { g.fail("eval", "value " + qs(q) + " at " + pts(pv.first) + " not in " + R.str()); break; }
    if (EXACT && allpt && allreal(t) && scalarcst(t) && pv.second.size() == 1 && !hasop(t, AP_TEXPR_SQRT) && !hasop(t, AP_TEXPR_MOD) && !hasop(t, AP_TEXPR_POW) && !iveq(R, IV(EQ(pv.second[0]), EQ(pv.second[0])))) g.fail("eval-precise", "exact value " + qs(pv.second[0]) + " evaluated to " + R.str()); }
  g.ok(hh(R.str()));
  // linearisation
  LX l; bool exc = itv_intlinearize_ap_texpr0(I, &l.e, e, A.p, intdim); LE L = readle(&l.e, 2);
  if (!exc && !wellformed(L)) { g.fail("lin-form", "ill-formed result " + les(L)); return; }
  if (!same(A.get(), env)) g.fail("args", "the environment has changed");
  bool lin = linear(t) && allreal(t) && scalarcst(t);
  for (auto& pv : V.v) if (inenv(env, pv.first) || (inuse(env, pv.first, u))) { Pt x = pv.first; for (size_t i = 0; i < 2; i++) if (!env[i].has(x[i])) x[i] = !env[i].lo.inf ? env[i].lo.v : !env[i].hi.inf ? env[i].hi.v : Q(0);
    IV v = atpt(L, x); for (auto& q : pv.second) { if (exc) { g.fail("lin-empty", "reported empty but has value " + qs(q) + " at " + pts(x)); break; } if (!v.has(q)) { g.fail("lin", "value " + qs(q) + " at " + pts(x) + " not in " + les(L) + " = " + v.str()); break; } }
    if (EXACT && lin && !exc && pv.second.size() == 1 && !iveq(v, IV(EQ(pv.second[0]), EQ(pv.second[0])))) g.fail("lin-precise", "linear expression with value " + qs(pv.second[0]) + " at " + pts(x) + " becomes " + les(L)); }
  g.ok(hh(les(L)));
  if (exc) return;
  // evaluation of the linear form, and quasilinearisation
  { It s; itv_eval_linexpr(I, s.i, &l.e, A.p); IV S = geti(s.i), W = overenv(L, env); if (ivnan(S) || !ivsub(W, S)) g.fail("evallin", les(L) + " evaluates to " + S.str() + " instead of " + W.str()); else if (EXACT && !iveq(S, W)) g.fail("evallin-precise", les(L) + " evaluates to " + S.str() + " instead of " + W.str()); }
  for (int meet = 0; meet < 2; meet++) { itv_linexpr_t q; itv_linexpr_init_set(&q, &l.e); itv_quasilinearize_linexpr(I, &q, A.p, meet); LE M = readle(&q, 2); bool quasi = itv_linexpr_is_quasilinear(&q); itv_linexpr_clear(&q);
    if (!wellformed(M)) g.fail("quasi-form", "ill-formed " + les(M)); else for (int i = 0; i < 2; i++) if (!M.eq[i]) { g.fail("quasi-form", "still interval coefficients: " + les(M)); break; } if (!quasi) g.fail("quasi-form", "is_quasilinear says no: " + les(M));
    for (auto& pv : V.v) if (inenv(env, pv.first)) { IV v = atpt(L, pv.first), w = atpt(M, pv.first); if (!ivsub(v, w)) { g.fail("quasi", les(L) + " at " + pts(pv.first) + " is " + v.str() + " but " + les(M) + " is " + w.str()); break; } } }
}
static void intlinear_one(G& g, const TEP& t, ap_texpr0_t* e, const Vals& V) {
  LX l; bool exc = itv_intlinearize_ap_texpr0_intlinear(I, &l.e, e); bool lin = linear(t);
  if (exc == lin) { if (lin) g.fail("intlinear", "a linear expression was refused"); else if (!exc) { } }
  if (exc) return; LE L = readle(&l.e, 2); if (L.k.bot) { for (auto& pv : V.v) if (pv.second.size()) { g.fail("intlinear", "bottom for an expression with value " + qs(pv.second[0])); break; } return; }
  if (!wellformed(L)) { g.fail("intlinear-form", "ill-formed " + les(L)); return; }
  for (auto& pv : V.v) { IV v = atpt(L, pv.first); for (auto& q : pv.second) if (!v.has(q)) { g.fail("intlinear", "value " + qs(q) + " at " + pts(pv.first) + " not in " + les(L)); return; } if (EXACT && lin && allreal(t) && scalarcst(t) && pv.second.size() == 1 && !iveq(v, IV(EQ(pv.second[0]), EQ(pv.second[0])))) { g.fail("intlinear-precise", "value " + qs(pv.second[0]) + " at " + pts(pv.first) + " but " + les(L)); return; } }
  g.ok(hh(les(L)));
}
static void run_expr(G& g, const TEP& t, int elvl, vector<size_t> ids) {
  int u = uses(t); bool toobig = B_NATIVE && !B_FLT && hasop(t, AP_TEXPR_POW);
  for (size_t id : ids) { if (!okmod(t, id)) continue; Vals V; TX* x = nullptr;
    auto need = [&]() { if (!x) { x = new TX(t); V = tabulate(t, id); } };
    if (g.next([&] { return "int" + std::to_string(id) + " intlinear " + tes(t); })) { need(); intlinear_one(g, t, x->e, V); }
    envlist(u, id, elvl, [&](const Env& env) { if (toobig) for (auto& i : env) for (auto* b : {&i.lo, &i.hi}) if (!b->inf && abs(b->v) > 3) return;
      if (!g.next([&] { return "int" + std::to_string(id) + " " + tes(t) + " on " + envs(env); })) return; need(); eval_one(g, t, x->e, V, env, id); });
    delete x; }
}
// ---- constraints ----
struct TC { TEP e; int t; Q m; };
static string tcs(const vector<TC>& v) { string s; for (auto& c : v) s += (s.empty() ? "" : " & ") + tes(c.e) + CT[c.t] + (c.t == AP_CONS_EQMOD ? qs(c.m) : ""); return s; }
static bool qsat(const vector<Q>& v, int t, const Q& m, bool all) { for (auto& q : v) if (val_sat(q, t, m) != all) return !all; return all; }
static void cons_one(G& g, const vector<TC>& cs, const vector<Vals>& V, ap_tcons0_array_t* arr, const Env& env, size_t intdim) {
  size_t n = cs.size(); auto sat = [&](size_t p) { for (size_t i = 0; i < n; i++) if (!qsat(V[i].v[p].second, cs[i].t, cs[i].m, false)) return false; return true; };
  auto allsat = [&](size_t p) { for (size_t i = 0; i < n; i++) if (!qsat(V[i].v[p].second, cs[i].t, cs[i].m, true)) return false; return true; };
  vector<size_t> P; for (size_t p = 0; p < V[0].v.size(); p++) if (inenv(env, V[0].v[p].first)) P.push_back(p);
  EnvA A(env);
  // backward evaluation
  for (int it : {1, 3}) { EnvA B(env); bool empty = itv_meet_ap_tcons0_array(I, arr, B.p, intdim, it); Env R = B.get(); bool bad = false;
    for (auto& i : R) if (ivnan(i)) { g.fail("hc4-nan", "NaN"); bad = true; } if (bad) continue;
    for (size_t i = 0; i < 2; i++) if (!ivsub(R[i], env[i])) g.fail("hc4-grow", "x" + std::to_string(i) + " grows from " + env[i].str() + " to " + R[i].str());
    for (size_t p : P) if ((empty || !inenv(R, V[0].v[p].first)) && sat(p)) { g.fail("hc4", "the solution " + pts(V[0].v[p].first) + " is lost: " + (empty ? "empty" : envs(R)) + ", iterations " + std::to_string(it)); break; }
    g.ok(hh(envs(R))); }
  // linearisation
  for (int meet = 0; meet < 2; meet++) { LA L; bool exc = itv_intlinearize_ap_tcons0_array(I, &L.a, arr, A.p, intdim); vector<LC> C = readla(&L.a, 2); bool bad = false;
    for (auto& c : C) if (!wellformed(c.e) && !c.e.k.bot) { g.fail("tlin-form", "ill-formed " + las(C)); bad = true; } if (bad) return;
    auto stage = [&](const char* w, bool isexc) { for (size_t p : P) { const Pt& x = V[0].v[p].first; if (meet) { if ((isexc || !allmay(C, x)) && sat(p)) { g.fail(string(w) + "-meet", "the solution " + pts(x) + " is excluded by " + (isexc ? "exception " : "") + las(C)); return; } } else if (!isexc && allmust(C, x) && !allsat(p)) { g.fail(string(w) + "-test", pts(x) + " satisfies " + las(C) + " but not the constraint"); return; } } g.ok(hh(las(C))); };
    stage("tlin", exc); if (exc) { if (C.size() != 1) g.fail("tlin-exc", "exception but " + las(C)); continue; }
    itv_quasilinearize_lincons_array(I, &L.a, A.p, meet); C = readla(&L.a, 2); for (auto& c : C) { if (!wellformed(c.e)) { g.fail("tquasi-form", "ill-formed " + las(C)); bad = true; } for (int i = 0; i < 2; i++) if (!c.e.eq[i]) { g.fail("tquasi-form", "interval coefficient left: " + las(C)); bad = true; break; } } if (bad) return; stage("tquasi", false);
    itv_linearize_lincons_array(I, &L.a, meet); C = readla(&L.a, 2); for (auto& c : C) { if (!wellformed(c.e)) { g.fail("tlinear-form", "ill-formed " + las(C)); bad = true; } if ((c.t == AP_CONS_EQ || c.t == AP_CONS_SUPEQ || c.t == AP_CONS_SUP) && !c.e.keq) g.fail("tlinear-form", "interval constant left: " + las(C)); } if (bad) return; stage("tlinear", false);
    if (n == 1 && meet == 0) { itv_lincons_t lc; itv_lincons_init(&lc); bool e1 = itv_intlinearize_ap_tcons0(I, &lc, &arr->p[0], A.p, intdim); LC c; c.e = readle(&lc.linexpr, 2); c.t = lc.constyp; c.m = getn(lc.num); itv_lincons_clear(&lc); for (size_t p : P) { const Pt& x = V[0].v[p].first; if ((e1 || !may(atpt(c.e, x), c.t, c.m)) && sat(p)) { g.fail("tcons-meet", "the solution " + pts(x) + " is excluded"); break; } } } }
  if (!same(A.get(), env)) g.fail("args", "the environment has changed");
  // boxization of the interval linear constraints
  for (int sep = 0; sep < 2; sep++) for (int ivonly = 0; ivonly < 2; ivonly++) for (size_t kmax : {1, 3}) { if (sep && kmax > 1) continue; LA L; if (itv_intlinearize_ap_tcons0_array(I, &L.a, arr, A.p, intdim)) break;
    vector<LC> C0 = readla(&L.a, 2); EnvA E(env), Rr(env); bool tch[4] = {0, 0, 0, 0}, empty = false; bool ch = itv_boxize_lincons_array(I, sep ? Rr.p : E.p, tch, &L.a, E.p, intdim, kmax, ivonly, &empty); Env R = sep ? Rr.get() : E.get();
    if (sep && !same(E.get(), env)) g.fail("box-args", "the environment has changed"); if (las(readla(&L.a, 2)) != las(C0)) g.fail("box-args", "the constraints have changed to " + las(readla(&L.a, 2)));
    bool bad = false; for (auto& i : R) if (ivnan(i)) { g.fail("box-nan", "NaN"); bad = true; } if (bad) continue;
    for (size_t p : P) if ((empty || !inenv(R, V[0].v[p].first)) && allmay(C0, V[0].v[p].first)) { g.fail("boxize", pts(V[0].v[p].first) + " satisfies " + las(C0) + " but is lost: " + (empty ? "empty" : envs(R)) + (ivonly ? " intervalonly" : "")); break; }
    if (!empty) { bool changed = false; for (size_t i = 0; i < 2; i++) { bool cl = R[i].bot || ecmp(R[i].lo, env[i].lo), chi = R[i].bot || ecmp(R[i].hi, env[i].hi); if (!R[i].bot) { if (ecmp(R[i].lo, env[i].lo) < 0 || ecmp(R[i].hi, env[i].hi) > 0) g.fail("box-grow", "bounds of x" + std::to_string(i) + " grow to " + R[i].str()); if (cl != tch[2 * i]) g.fail("box-change", "flag of the lower bound of x" + std::to_string(i) + " is " + (tch[2 * i] ? "set" : "clear") + ": " + env[i].str() + " to " + R[i].str()); if (chi != tch[2 * i + 1]) g.fail("box-change", "flag of the upper bound of x" + std::to_string(i)); } changed = changed || cl || chi; } if (changed != ch) g.fail("box-change", string("returned ") + (ch ? "true" : "false") + " for " + envs(env) + " to " + envs(R)); }
    g.ok(hh(envs(R))); }
}
static void run_cons(G& g, const vector<TC>& cs, int elvl, vector<size_t> ids) {
  int u = 0; for (auto& c : cs) u |= uses(c.e);
  for (size_t id : ids) { bool ok = true; for (auto& c : cs) if (!okmod(c.e, id)) ok = false; if (!ok) continue; vector<Vals> V; ap_tcons0_array_t arr; bool made = false;
    envlist(3, id, elvl, [&](const Env& env) { if (!g.next([&] { return "int" + std::to_string(id) + " " + tcs(cs) + " on " + envs(env); })) return;
      if (!made) { made = true; arr = ap_tcons0_array_make(cs.size()); for (size_t i = 0; i < cs.size(); i++) { V.push_back(tabulate(cs[i].e, id, true)); ap_scalar_t* m = NULL; if (cs[i].t == AP_CONS_EQMOD) { m = ap_scalar_alloc(); set_scalar(m, EQ(cs[i].m), R_MPQ); } arr.p[i] = ap_tcons0_make((ap_constyp_t)cs[i].t, mk_texpr(cs[i].e), m); } }
      cons_one(g, cs, V, &arr, env, id); });
    if (made) ap_tcons0_array_clear(&arr); }
}
static const int RELS[] = {AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_DISEQ, AP_CONS_EQMOD};
static TEP lin2(const Itv& a, const Itv& b, const Itv& k) { return tb(AP_TEXPR_ADD, tb(AP_TEXPR_ADD, tb(AP_TEXPR_MUL, tc(a), td(0)), tb(AP_TEXPR_MUL, tc(b), td(1))), tc(k)); }
static vector<Itv> coefs() { return {Itv(Q(0)), Itv(Q(1)), Itv(Q(-2)), Itv(Q(1), Q(2)), Itv(Q(-1), Q(2)), Itv(Q(-3), Q(-1)), Itv(EQ(Q(1)), pinf()), Itv(mkq(1, 2))}; }
static vector<Itv> csts() { return {Itv(Q(0)), Itv(Q(-1)), Itv(mkq(3, 2)), Itv(Q(-1), Q(1)), Itv(minf(), EQ(Q(1))), Itv(EQ(Q(-2)), pinf()), Itv(minf(), pinf())}; }
static vector<TC> pool() { vector<TC> v; TEP x = td(0), y = td(1); auto add = [&](const TEP& e, int t) { v.push_back({e, t, Q(2)}); };
  add(tb(AP_TEXPR_SUB, x, tc(1)), AP_CONS_SUPEQ); add(tb(AP_TEXPR_SUB, tc(2), x), AP_CONS_SUP); add(tb(AP_TEXPR_SUB, x, y), AP_CONS_EQ); add(tb(AP_TEXPR_ADD, x, y), AP_CONS_SUP); add(tb(AP_TEXPR_SUB, tb(AP_TEXPR_MUL, x, y), tc(2)), AP_CONS_SUPEQ); add(tb(AP_TEXPR_SUB, tb(AP_TEXPR_MUL, x, x), y), AP_CONS_EQ); add(tb(AP_TEXPR_SUB, tb(AP_TEXPR_DIV, x, y), tc(2)), AP_CONS_EQ); add(lin2(Itv(Q(1), Q(2)), Itv(Q(-1)), Itv(Q(-1), Q(1))), AP_CONS_EQ); add(lin2(Itv(Q(-1), Q(2)), Itv(Q(1)), Itv(mkq(1, 2))), AP_CONS_SUPEQ); add(tb(AP_TEXPR_MOD, x, tc(2)), AP_CONS_EQ); add(y, AP_CONS_DISEQ); add(y, AP_CONS_EQMOD); add(tc(-1), AP_CONS_SUPEQ); add(tc(Itv(Q(-1), Q(1))), AP_CONS_EQ); add(tb(AP_TEXPR_SUB, tu(AP_TEXPR_SQRT, x), tc(1)), AP_CONS_SUP); add(tu(AP_TEXPR_CAST, tb(AP_TEXPR_SUB, y, tc(1, 2)), AP_RTYPE_INT, AP_RDIR_UP), AP_CONS_EQ); return v; }
static void subst_group(G& g) {
  TEP x = td(0), y = td(1); vector<TEP> E{x, y, tc(1), tb(AP_TEXPR_ADD, x, y), tb(AP_TEXPR_SUB, x, tc(2)), tb(AP_TEXPR_MUL, x, y), tb(AP_TEXPR_MUL, x, x), tu(AP_TEXPR_NEG, y), tb(AP_TEXPR_DIV, y, tc(2), AP_RTYPE_INT, AP_RDIR_ZERO), tu(AP_TEXPR_SQRT, x), tc(Itv(Q(-1), Q(1)))};
  vector<vector<ap_dim_t>> D{{0}, {1}, {0, 1}, {1, 0}};
  for (auto& d : D) for (size_t i = 0; i < E.size(); i++) for (size_t j = 0; j < (d.size() > 1 ? E.size() : 1); j++) { vector<TEP> ex{E[i]}; if (d.size() > 1) ex.push_back(E[j]); vector<Vals> V; bool made = false; vector<ap_texpr0_t*> arr;
    for (size_t id : {0, 1}) { V.clear(); for (auto& e : ex) V.push_back(tabulate(e, id, true));
      envlist(3, id, R_MPQ, [&](const Env& arg) { for (int top = 0; top < 2; top++) { if (!g.next([&] { string s = "int" + std::to_string(id); for (size_t k = 0; k < d.size(); k++) s += " x" + std::to_string(d[k]) + ":=" + tes(ex[k]); return s + " into " + envs(arg) + (top ? " from [-2,2]^2" : ""); })) continue;
        if (!made) { made = true; for (auto& e : ex) arr.push_back(mk_texpr(e)); }
        Env r0(2, top ? IV(EQ(Q(-2)), EQ(Q(2))) : TOP()); EnvA Rr(r0), A(arg); bool empty = itv_subst_ap_texpr0_array(I, Rr.p, A.p, d.data(), arr.data(), d.size(), id, 2 - id, 3); Env R = Rr.get(); if (!same(A.get(), arg)) g.fail("args", "the argument has changed");
        for (size_t p = 0; p < V[0].v.size(); p++) { const Pt& pt = V[0].v[p].first; if (!inenv(r0, pt)) continue; if (!empty && inenv(R, pt)) continue; bool sol = true; for (size_t k = 0; k < 2; k++) { size_t w = d.size(); for (size_t q = 0; q < d.size(); q++) if (d[q] == k) w = q; if (w == d.size()) { if (!arg[k].has(pt[k])) sol = false; } else { bool any = false; for (auto& q : V[w].v[p].second) if (arg[k].has(q) && (k >= id || q.get_den() == 1)) any = true; if (!any) sol = false; } }
          if (sol) { g.fail("subst", pts(pt) + " is lost: " + (empty ? "empty" : envs(R))); break; } }
        g.ok(hh(envs(R))); } });
    } for (auto e : arr) ap_texpr0_free(e); } }
// linear expressions in the external form
static void lin_group(G& g) {
  vector<Itv> C = coefs(), K = csts();
  for (auto& a : C) for (auto& b : C) for (auto& k : K) for (int sparse = 0; sparse < 2; sparse++) for (int rep : {R_MPQ, R_DBL, R_MPFR}) { if (rep != R_MPQ && sparse) continue; Lin e; e.c = {a, b}; e.k = k; ap_linexpr0_t* l = nullptr;
    envlist(3, 0, g.R->tier ? 1 : 0, [&](const Env& env) { if (!g.next([&] { return e.str() + " on " + envs(env) + (sparse ? " sparse" : "") + " rep" + std::to_string(rep); })) return; if (!l) l = mk_linexpr(e, sparse, rep); EnvA A(env); It r; bool ex = itv_eval_ap_linexpr0(I, r.i, l, A.p); IV R = geti(r.i); LE L; L.c.clear(); bool allrep = true; for (auto& c : e.c) { L.c.push_back(IV(c.lo, c.hi)); allrep = allrep && erep(c.lo) && erep(c.hi); } L.k = IV(e.k.lo, e.k.hi); allrep = allrep && erep(e.k.lo) && erep(e.k.hi); IV W = overenv(L, env); if (ivnan(R) || !ivsub(W, R)) g.fail("eval_ap_linexpr0", "got " + R.str() + " instead of " + W.str()); else if (EXACT && !iveq(R, W)) g.fail("eval_ap_linexpr0-precise", "got " + R.str() + " instead of " + W.str()); if (ex && !allrep && !R.top()) g.fail("eval_ap_linexpr0-flag", "conversions reported exact"); if (!ex && EXACT) g.fail("eval_ap_linexpr0-flag", "conversions reported inexact");
      LX q; bool e2 = itv_linexpr_set_ap_linexpr0(I, &q.e, l); LE M = readle(&q.e, 2); if (!wellformed(M)) g.fail("set_ap_linexpr0", "ill-formed " + les(M)); for (size_t i = 0; i < 2; i++) { IV w(e.c[i].lo, e.c[i].hi); if (!ivsub(w, M.c[i]) || !ivsub(M.c[i], ivrnd(w))) g.fail("set_ap_linexpr0", "coefficient " + w.str() + " becomes " + M.c[i].str()); } if (!ivsub(L.k, M.k) || !ivsub(M.k, ivrnd(L.k))) g.fail("set_ap_linexpr0", "constant"); if (e2 != allrep) g.fail("set_ap_linexpr0-flag", string("conversion reported ") + (e2 ? "exact" : "inexact"));
      ap_linexpr0_t* back = NULL; ap_linexpr0_set_itv_linexpr(I, &back, &q.e); Lin bl = read_linexpr(back, 2); for (size_t i = 0; i < 2; i++) if (!iveq(IV(bl.c[i].lo, bl.c[i].hi), M.c[i])) g.fail("ap_linexpr0_set", "coefficient " + M.c[i].str() + " becomes " + bl.c[i].str()); if (!iveq(IV(bl.k.lo, bl.k.hi), M.k)) g.fail("ap_linexpr0_set", "constant"); ap_linexpr0_free(back);
      g.ok(hh(R.str())); });
    if (l) ap_linexpr0_free(l); }
}
// quick: fewer rounding modes in nested expressions
static bool q2t(const TEP& t) { return !t || t->kind < 2 || t->rt != AP_RTYPE_INT || t->rd == AP_RDIR_DOWN || t->rd == AP_RDIR_ZERO; }
int main(int argc, char** argv) {
  fesetround(FE_UPWARD); mpfr_set_default_prec(53); I = itv_internal_alloc();
  Runner R(argc, argv); R.dom = BK; int T = R.tier; TIER = T; bool lite = R.opt.count("lite") && R.opt["lite"] != "0";
  static const char* ON[] = {"add", "sub", "mul", "div", "mod", "pow", "neg", "cast", "sqrt"};
  static const int OP[] = {AP_TEXPR_ADD, AP_TEXPR_SUB, AP_TEXPR_MUL, AP_TEXPR_DIV, AP_TEXPR_MOD, AP_TEXPR_POW, AP_TEXPR_NEG, AP_TEXPR_CAST, AP_TEXPR_SQRT};
  for (int k = 0; k < 9; k++) { int op = OP[k]; R.group(string("expr1 ") + ON[k], [=](G& g) { depth1(op, leaves(T ? 2 : 1), T ? 2 : 1, [&](const TEP& t) { run_expr(g, t, T ? 2 : 1, {0, 1}); }); });
    for (int m = 0; m < 9; m++) { int op2 = OP[m]; if (!lite) R.group(string("expr2 ") + ON[k] + " " + ON[m], [=](G& g) { depth2(op, op2, leaves(T ? 1 : 0), 0, [&](const TEP& t) { if (!T && (!q2t(t) || (t->rt == AP_RTYPE_INT && t->rd == AP_RDIR_ZERO && m != k) || !q2t(t->a->kind == 2 && uses(t->a) ? t->a : t->b))) return; run_expr(g, t, T ? 0 : -1, {0}); if (T) run_expr(g, t, 0, {2}); }); }); }
    R.group(string("cons1 ") + ON[k], [=](G& g) { depth1(op, leaves(T ? 1 : 0), T ? 1 : 0, [&](const TEP& t) { if (!uses(t)) return; for (int r : RELS) for (int c = 0; c < 3; c++) { if (!T && c && (!q2t(t) || (lite && c > 1))) continue; if (c && (r == AP_CONS_DISEQ || r == AP_CONS_EQMOD)) continue; TEP e = c == 0 ? t : c == 1 ? tb(AP_TEXPR_SUB, t, tc(2)) : tb(AP_TEXPR_SUB, tc(1, 2), t); run_cons(g, {{e, r, Q(2)}}, T ? 0 : -1, T ? vector<size_t>{0, 1, 2} : c == 0 && !lite ? vector<size_t>{0, 2} : vector<size_t>{0}); } }); }); }
  for (int r : RELS) R.group(string("conslin ") + CT[r], [=](G& g) { for (auto& a : coefs()) for (auto& b : coefs()) for (auto& k : csts()) for (int id = 0; id < 3; id += T ? 1 : lite ? 3 : 2) run_cons(g, {{lin2(a, b, k), r, mkq(2)}}, T ? 0 : -1, {(size_t)id}); });
  { auto P = pool(); for (size_t i = 0; i < P.size(); i++) R.group("cons2 " + tcs({P[i]}), [=](G& g) { for (auto& b : P) run_cons(g, {P[i], b}, T ? 1 : -1, {0, 2}); }); }
  if (!B_NATIVE || B_FLT) for (int k = 0; k < 9; k++) { int op = OP[k]; if (op == AP_TEXPR_MOD || op == AP_TEXPR_POW || op == AP_TEXPR_NEG) continue; R.group(string("float ") + ON[k], [=](G& g) {
    vector<TEP> L{td(0), tc(1, 3), tc(Itv(Q(pow2(-140) * 3))), tc(Itv(Q(pow2(-1060) * 3))), tc(Itv(Q(pow2(100) + 1))), tc(Itv(Q(1 + pow2(-30)))), tc(Itv(Q(1 + pow2(-60)), Q(1 + pow2(-60) + pow2(-110))))};
    vector<std::pair<int, int>> FT; for (int rt : {AP_RTYPE_SINGLE, AP_RTYPE_DOUBLE, AP_RTYPE_EXTENDED, AP_RTYPE_QUAD}) for (int rd : {AP_RDIR_NEAREST, AP_RDIR_UP, AP_RDIR_DOWN}) { if (!T && rt == AP_RTYPE_QUAD && rd != AP_RDIR_UP) continue; FT.push_back({rt, rd}); }
    for (auto& t : FT) for (auto& a : L) for (size_t j = 0; j < (op >= AP_TEXPR_NEG ? 1 : L.size()); j++) { TEP e = op >= AP_TEXPR_NEG ? tu(op, a, t.first, t.second) : tb(op, a, L[j], t.first, t.second); run_expr(g, e, -1, {0}); if (!uses(e) && !T && op != AP_TEXPR_MUL) continue;
      for (auto& t2 : FT) { if (!T && t2.second == AP_RDIR_DOWN) continue; run_expr(g, tu(AP_TEXPR_CAST, e, t2.first, t2.second), -1, {0}); } run_expr(g, tb(AP_TEXPR_SUB, td(0), e), -1, {0}); } }); }
  R.group("subst", subst_group);
  R.group("linexpr", lin_group);
  return R.run();
}
