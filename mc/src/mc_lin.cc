// Top-level (quasi/int)linearisation through an abstract value: ap_eval_*, ap_quasilinearize_*, ap_intlinearize_* with the
// three kinds of scalars, and the generic meets built on them (C15).
#include "dom.hh"
#include "texpr.hh"
#include "flat.hh"
extern "C" {
#include "ap_linearize.h"
#include "ap_generic.h"
}
using flat::G; using flat::Runner;
static Dom D; static ap_manager_t* man; typedef ap_abstract0_t A0;
static const ap_scalar_discr_t DISC[] = {AP_SCALAR_MPQ, AP_SCALAR_DOUBLE, AP_SCALAR_MPFR}; static const char* DN[] = {"Q", "D", "F"};
// ---- values with the exact list of grid points they contain ----
struct Val { string name; size_t ni; vector<Cons> cs; bool bot; vector<Pt> pts; };
static vector<Val> VALS;
static Cons cons2(long a, long b, const Q& k, int t = AP_CONS_SUPEQ) { Cons c; c.t = t; c.mod = 0; c.e.c = {Itv(Q(a)), Itv(Q(b))}; c.e.k = Itv(k); return c; }
static vector<Q> grid(bool integer) { vector<Q> g; for (auto s : {"0", "1", "-1", "2", "3", "-2", "5"}) g.push_back(Q(s)); if (!integer) for (auto s : {"1/2", "-1/2", "5/2", "1/3"}) g.push_back(Q(s)); return g; }
static void mkvals() {
  struct T { const char* n; vector<Cons> c; bool bot; };
  vector<T> t = {{"top", {}, false}, {"box", {cons2(1, 0, -1), cons2(-1, 0, 2), cons2(0, 1, 1), cons2(0, -1, 3)}, false}, {"half", {cons2(1, 0, -1), cons2(0, -1, 2)}, false},
    {"diag", {cons2(1, 0, 0), cons2(-1, 0, 2), cons2(1, -1, 0, AP_CONS_EQ)}, false}, {"frac", {cons2(3, 0, -1), cons2(-2, 0, 5), cons2(0, 2, 1), cons2(0, -1, 0)}, false}, {"point", {cons2(1, 0, -2, AP_CONS_EQ), cons2(0, 1, 1, AP_CONS_EQ)}, false},
    {"neg", {cons2(-1, 0, -1), cons2(1, 0, 2), cons2(0, 1, 0)}, false}, {"bot", {}, true}, {"lazybot", {cons2(1, 0, -2), cons2(-1, 0, 1)}, true}};
  for (auto& x : t) for (size_t ni : {0, 1, 2}) { if (ni == 2 && x.n != string("box") && x.n != string("top")) continue; Val v; v.name = string(x.n) + std::to_string(ni); v.ni = ni; v.cs = x.c; v.bot = x.bot;
    if (!v.bot) for (auto& p : grid(ni > 0)) for (auto& q : grid(ni > 1)) { Pt z{p, q}; bool in = true; for (auto& c : v.cs) if (!cons_may(c, z)) in = false; if (in) v.pts.push_back(z); }
    VALS.push_back(v); } }
static A0* mkval(const Val& v) { if (v.bot && v.cs.empty()) return ap_abstract0_bottom(man, v.ni, 2 - v.ni); ap_lincons0_array_t a = mk_lincons_array(v.cs, true); A0* r = ap_abstract0_of_lincons_array(man, v.ni, 2 - v.ni, &a); ap_lincons0_array_clear(&a); return r; }
// ---- expressions ----
static int uses(const TEP& t) { if (t->kind == 0) return 0; if (t->kind == 1) return 1 << t->d; return uses(t->a) | (t->b ? uses(t->b) : 0); }
static bool isreal(const TEP& t) { return t->kind < 2 || t->rt == AP_RTYPE_REAL || t->op == AP_TEXPR_NEG; }
static bool linear(const TEP& t) { if (!uses(t)) return true; if (t->kind == 1) return true; if (!isreal(t)) return false;
  switch (t->op) { case AP_TEXPR_NEG: case AP_TEXPR_CAST: return linear(t->a); case AP_TEXPR_ADD: case AP_TEXPR_SUB: return linear(t->a) && linear(t->b);
  case AP_TEXPR_MUL: return (!uses(t->a) && linear(t->b)) || (!uses(t->b) && linear(t->a)); case AP_TEXPR_DIV: return !uses(t->b) && linear(t->a); default: return false; } }
static bool intval(const TEP& t, size_t ni) { if (t->kind == 0) return t->c.scalar() && t->c.lo.v.get_den() == 1; if (t->kind == 1) return t->d < ni; return t->rt == AP_RTYPE_INT && t->op != AP_TEXPR_NEG && t->op != AP_TEXPR_MOD; }
static bool okmod(const TEP& t, size_t ni) { if (t->kind < 2) return true; if (t->op == AP_TEXPR_MOD && t->rt == AP_RTYPE_INT && !(intval(t->a, ni) && intval(t->b, ni))) return false; return okmod(t->a, ni) && (!t->b || okmod(t->b, ni)); }
static vector<TEP> TS, TSS;   // all, small
static void mktrees() {
  vector<TEP> L{td(0), td(1), tc(2), tc(Itv(Q(-1), Q(2))), tc(1, 3)}, L0{td(0), td(1), tc(-3), tc(Itv(mkq(1, 2), mkq(3, 2)))};
  for (auto& l : L) TS.push_back(l); TS.push_back(tc(Itv(EQ(Q(1)), pinf()))); TS.push_back(tc(Itv(minf(), pinf())));
  const int BIN[] = {AP_TEXPR_ADD, AP_TEXPR_SUB, AP_TEXPR_MUL, AP_TEXPR_DIV, AP_TEXPR_MOD, AP_TEXPR_POW}; const std::pair<int, int> TY[] = {{AP_RTYPE_REAL, AP_RDIR_RND}, {AP_RTYPE_INT, AP_RDIR_ZERO}, {AP_RTYPE_INT, AP_RDIR_UP}, {AP_RTYPE_SINGLE, AP_RDIR_NEAREST}, {AP_RTYPE_DOUBLE, AP_RDIR_RND}};
  vector<TEP> one; for (int op : BIN) for (auto& t : TY) for (auto& a : L) for (auto& b : L) one.push_back(tb(op, a, b, t.first, t.second));
  for (int op : {AP_TEXPR_NEG, AP_TEXPR_CAST, AP_TEXPR_SQRT}) for (auto& t : TY) for (auto& a : L) one.push_back(tu(op, a, t.first, t.second));
  for (auto& e : one) TS.push_back(e);
  for (size_t i = 0; i < one.size(); i += 1) if (uses(one[i])) for (int op : {AP_TEXPR_ADD, AP_TEXPR_MUL, AP_TEXPR_DIV, AP_TEXPR_SUB}) { bool small = one[i]->b && one[i]->rt == AP_RTYPE_REAL; for (size_t j = 0; j < L0.size(); j++) { TS.push_back(tb(op, one[i], L0[j])); if (small || j == 1) TS.push_back(tb(op, L0[j], one[i], small ? AP_RTYPE_REAL : AP_RTYPE_INT, AP_RDIR_DOWN)); } }
  TSS = {td(0), tc(2), tc(0), tc(-1), tc(Itv(Q(-1), Q(2))), tb(AP_TEXPR_SUB, td(0), tc(2)), tb(AP_TEXPR_SUB, tc(1, 3), td(1)), tb(AP_TEXPR_ADD, td(0), td(1)), tb(AP_TEXPR_SUB, td(1), td(0)), tb(AP_TEXPR_MUL, td(0), td(1)), tb(AP_TEXPR_SUB, tb(AP_TEXPR_MUL, td(0), td(0)), tc(4)),
    tb(AP_TEXPR_SUB, tb(AP_TEXPR_MUL, tc(Itv(Q(-1), Q(2))), td(0)), tc(3)), tb(AP_TEXPR_SUB, tb(AP_TEXPR_MUL, tc(Itv(Q(1), Q(2))), td(1)), td(0)), tb(AP_TEXPR_SUB, tc(1), tb(AP_TEXPR_MUL, tc(Itv(EQ(Q(1)), pinf())), td(0))), tb(AP_TEXPR_DIV, td(1), td(0)), tb(AP_TEXPR_DIV, td(0), tc(2), AP_RTYPE_INT, AP_RDIR_ZERO), tb(AP_TEXPR_ADD, td(0), td(1), AP_RTYPE_SINGLE, AP_RDIR_NEAREST),
    tb(AP_TEXPR_MOD, td(0), tc(2), AP_RTYPE_REAL), tu(AP_TEXPR_NEG, tb(AP_TEXPR_ADD, td(0), tc(Itv(Q(0), Q(1))))), tb(AP_TEXPR_SUB, tb(AP_TEXPR_POW, td(1), tc(2)), tc(1)), tb(AP_TEXPR_DIV, td(0), tc(3))}; }
struct TX { ap_texpr0_t* e; explicit TX(const TEP& t, int rep) : e(mk_texpr(t, rep)) {} ~TX() { ap_texpr0_free(e); } TX(const TX&) = delete; };
static int rep(int d) { return d == 0 ? R_MPQ : d == 1 ? R_DBL : R_MPFR; }
static string vs(const Itv& i) { return i.str(); }
static bool has(const Itv& i, const Q& q) { return ecmp(i.lo, EQ(q)) <= 0 && ecmp(EQ(q), i.hi) <= 0; }
static bool ok_lin(const Lin& l) { for (auto& c : l.c) if (isnan_eq(c.lo) || isnan_eq(c.hi)) return false; return !isnan_eq(l.k.lo) && !isnan_eq(l.k.hi); }
static bool novar(const Lin& l) { for (auto& c : l.c) if (!(c.scalar() && !c.lo.inf && c.lo.v == 0)) return false; return true; }
static bool quasi(const Lin& l) { for (auto& c : l.c) if (!c.scalar()) return false; return true; }
static bool covers(G& g, const Val& v, const TEP& t, ap_linexpr0_t* e, const string& what) { if (!e) { g.fail(what, "no result"); return false; } Lin l = read_linexpr(e, 2); if (!ok_lin(l)) { g.fail(what, "NaN"); return false; }
  for (auto& p : v.pts) for (auto& q : teval(t, p)) if (!has(eval_itv(l, p), q)) { g.fail(what, "value " + qs(q) + " at " + pts(p) + " not in " + l.str()); return false; } g.ok(std::hash<string>()(l.str())); return true; }
// the value (and its manager) must come out of the call unchanged
struct Guard { G& g; A0* a; A0* c; Guard(G& g, A0* a) : g(g), a(a), c(ap_abstract0_copy(man, a)) {} ~Guard() { if (!ap_abstract0_is_eq(man, a, c)) g.fail("args", "the abstract value has changed"); ap_abstract0_free(man, c); } };
static void texpr_case(G& g, const Val& v, A0* a, const TEP& t, int d) {
  Guard gd(g, a); TX e(t, rep(d)); bool ex = true; string q = " not in ";
  ap_interval_t* r = ap_eval_texpr0(man, a, e.e, DISC[d], &ex); Itv R = interval_q(r); ap_interval_free(r);
  for (auto& p : v.pts) for (auto& z : teval(t, p)) if (!has(R, z)) { g.fail("eval", "value " + qs(z) + " at " + pts(p) + " not in " + vs(R)); return; } g.ok(std::hash<string>()(R.str()));
  ap_linexpr0_t* l = ap_intlinearize_texpr0_intlinear(man, e.e, DISC[d]);
  if (linear(t)) { covers(g, v, t, l, "intlinear"); } else if (l) g.fail("intlinear", "result for an expression that is not interval linear"); if (l) ap_linexpr0_free(l);
  for (int ql = 0; ql < 2; ql++) { bool e1 = false, e2 = true; l = ap_intlinearize_texpr0(man, a, e.e, ql ? &e1 : NULL, DISC[d], ql); covers(g, v, t, l, "intlinearize"); if (ql && !v.bot && l && !quasi(read_linexpr(l, 2))) g.fail("quasi", "not quasilinear"); if (l) ap_linexpr0_free(l);
    ap_texpr0_t* tab[3] = {e.e, e.e, e.e}; TX o(TSS[9], rep(d)); tab[1] = o.e; ap_linexpr0_t** la = ap_intlinearize_texpr0_array(man, a, tab, 3, &e2, DISC[d], ql); covers(g, v, t, la[0], "array"); covers(g, v, TSS[9], la[1], "array"); covers(g, v, t, la[2], "array"); for (int k = 0; k < 3; k++) { if (ql && !v.bot && !quasi(read_linexpr(la[k], 2))) g.fail("quasi", "array element not quasilinear"); ap_linexpr0_free(la[k]); } free(la); }
}
// ---- linear ----
static vector<Lin> LINS;
static void mklins() { vector<Itv> C{Itv(Q(0)), Itv(Q(1)), Itv(Q(-2)), Itv(Q(-1), Q(2)), Itv(Q(1), Q(3)), Itv(EQ(mkq(1, 3)), pinf()), Itv(minf(), EQ(Q(-1))), Itv(minf(), pinf())}, K{Itv(Q(0)), Itv(Q(-3)), Itv(mkq(1, 3)), Itv(Q(-1), Q(2)), Itv(EQ(Q(1)), pinf()), Itv(minf(), pinf())};
  for (auto& a : C) for (auto& b : C) for (auto& k : K) { Lin l; l.c = {a, b}; l.k = k; LINS.push_back(l); } }
static bool boundedpt(const Val& v) { return v.name.substr(0, 3) == "box" || v.name.substr(0, 5) == "point"; }
static EQ emul(const EQ& x, const EQ& y) { auto sg = [](const EQ& e) { return e.inf ? e.inf : sgn(e.v); }; int s = sg(x) * sg(y); if (!s) return EQ(Q(0)); if (x.inf || y.inf) return EQ(s, true); return EQ(Q(x.v * y.v)); }
static Itv mulI(const Itv& a, const Itv& b) { Itv r; bool f = true; for (const EQ* x : {&a.lo, &a.hi}) for (const EQ* y : {&b.lo, &b.hi}) { EQ p = emul(*x, *y); if (f || ecmp(p, r.lo) < 0) r.lo = p; if (f || ecmp(p, r.hi) > 0) r.hi = p; f = false; } return r; }
static Itv addI(const Itv& a, const Itv& b) { Itv r; r.lo = a.lo.inf || b.lo.inf ? minf() : EQ(Q(a.lo.v + b.lo.v)); r.hi = a.hi.inf || b.hi.inf ? pinf() : EQ(Q(a.hi.v + b.hi.v)); return r; }
static bool coversl(G& g, const Val& v, const Lin& s, ap_linexpr0_t* e, const string& what) { Lin l = read_linexpr(e, 2); if (!ok_lin(l)) { g.fail(what, "NaN"); return false; }
  for (auto& p : v.pts) { Itv x = eval_itv(s, p), y = eval_itv(l, p); if (ecmp(x.lo, y.lo) < 0 || ecmp(x.hi, y.hi) > 0) { g.fail(what, "values " + vs(x) + " at " + pts(p) + " not in " + l.str()); return false; } } if (!v.bot && !quasi(l)) g.fail(what, "not quasilinear: " + l.str()); g.ok(std::hash<string>()(l.str())); return true; }
static void lin_case(G& g, const Val& v, A0* a, const Lin& s, int d, bool sparse) {
  Guard gd(g, a); ap_linexpr0_t* e = mk_linexpr(s, sparse, rep(d)); bool ex = true;
  ap_interval_t* r = ap_eval_linexpr0(man, a, e, DISC[d], &ex); Itv R = interval_q(r); ap_interval_free(r);
  for (auto& p : v.pts) { Itv x = eval_itv(s, p); if (ecmp(x.lo, R.lo) < 0 || ecmp(x.hi, R.hi) > 0) { g.fail("evallin", "values " + vs(x) + " at " + pts(p) + " not in " + vs(R)); break; } }
  if (d == 0 && boundedpt(v) && D.exactnum) { Itv X[2]; if (v.name[0] == 'b') { X[0] = Itv(Q(1), Q(2)); X[1] = Itv(Q(-1), Q(3)); } else { X[0] = Itv(Q(2)); X[1] = Itv(Q(-1)); } Itv W = addI(s.k, addI(mulI(s.c[0], X[0]), mulI(s.c[1], X[1]))); if (ecmp(W.lo, R.lo) || ecmp(W.hi, R.hi)) g.fail("evallin-precise", "range is " + vs(W) + ", result " + vs(R)); }
  g.ok(std::hash<string>()(R.str()));
  bool e1 = false, e2 = true; ap_linexpr0_t* q1 = ap_quasilinearize_linexpr0(man, a, e, &e1, DISC[d]); ap_linexpr0_t* q2 = ap_quasilinearize_linexpr0(man, a, e, &e2, DISC[d]); coversl(g, v, s, q1, "quasi"); if (quasi(s) && q1 != e) g.fail("quasi", "a quasilinear argument is not returned itself");
  if (e1 != e2) g.fail("exact", "exactness result not set"); if (q1 != e) ap_linexpr0_free(q1); if (q2 != e) ap_linexpr0_free(q2);
  Lin o; o.c = {Itv(Q(1), Q(3)), Itv(Q(-1))}; o.k = Itv(Q(2)); ap_linexpr0_t* tab[3] = {e, mk_linexpr(o, !sparse, rep(d)), e}; e1 = false; e2 = true; ap_linexpr0_t** t1 = ap_quasilinearize_linexpr0_array(man, a, tab, 3, &e1, DISC[d]); coversl(g, v, s, t1[0], "array"); coversl(g, v, o, t1[1], "array"); coversl(g, v, s, t1[2], "array"); if (t1 != tab) { for (int k = 0; k < 3; k++) ap_linexpr0_free(t1[k]); free(t1); }
  t1 = ap_quasilinearize_linexpr0_array(man, a, tab, 3, &e2, DISC[d]); if (t1 != tab) { for (int k = 0; k < 3; k++) ap_linexpr0_free(t1[k]); free(t1); } if (e1 != e2) g.fail("exact", "exactness result not set (array)"); ap_linexpr0_free(tab[1]); ap_linexpr0_free(e);
}
// ---- constraints ----
static bool must(const Itv& v, int t, const Q& m) { auto sg = [](const EQ& e) { return e.inf ? e.inf : sgn(e.v); }; switch (t) { case AP_CONS_EQ: return !sg(v.lo) && !sg(v.hi); case AP_CONS_SUPEQ: return sg(v.lo) >= 0; case AP_CONS_SUP: return sg(v.lo) > 0; case AP_CONS_DISEQ: return sg(v.lo) > 0 || sg(v.hi) < 0;
  default: return v.scalar() && (m == 0 ? v.lo.v == 0 : Q(v.lo.v / m).get_den() == 1); } }
static bool may_(const Cons& c, const Pt& p) { return cons_may(c, p); }
static bool okcons(G& g, const ap_lincons0_t* c, Cons& r, const string& what) { if (!c->linexpr0) { g.fail(what, "no expression"); return false; } r = read_lincons((ap_lincons0_t*)c, 2); if (!ok_lin(r.e)) { g.fail(what, "NaN"); return false; } return true; }
static Q MODV(2);
static void tcons_case(G& g, const Val& v, A0* a, const TEP& t, int ct, int d) {
  Guard gd(g, a); TCons tcn{t, ct, MODV}; ap_tcons0_array_t arr = mk_tcons_array({tcn}, rep(d));
  for (int ql = 0; ql < 2; ql++) for (int meet = 0; meet < 2; meet++) { bool ex = true; ap_lincons0_t r = ap_intlinearize_tcons0(man, a, &arr.p[0], &ex, DISC[d], ql, meet); Cons R; if (okcons(g, &r, R, "tcons")) {
      if (ql && !v.bot && !quasi(R.e)) g.fail("tcons-quasi", "not quasilinear: " + R.str());
      for (auto& p : v.pts) { vector<Q> z = teval(t, p); bool m = false; for (auto& x : z) m |= val_sat(x, ct, tcn.mod); bool bad = false; if (m && !may_(R, p)) bad = true; if (!meet) for (auto& x : z) if (!val_sat(x, ct, tcn.mod) && must(eval_itv(R.e, p), R.t, R.mod)) bad = true;
        if (bad) { g.fail("tcons", string(meet ? "meet" : "test") + (ql ? " quasi" : "") + " at " + pts(p) + ": " + R.str()); break; } } g.ok(std::hash<string>()(R.str())); }
    ap_lincons0_clear(&r); }
  ap_tcons0_array_clear(&arr);
}
static void tarr_case(G& g, const Val& v, A0* a, const vector<TCons>& cs, int d) {
  Guard gd(g, a); ap_tcons0_array_t arr = mk_tcons_array(cs, rep(d)); vector<const Pt*> sat; for (auto& p : v.pts) { bool all = true; for (auto& c : cs) if (!tcons_may(c, p)) all = false; if (all) sat.push_back(&p); }
  auto check = [&](ap_lincons0_array_t& r, ap_linexpr_type_t ty, const string& w) { vector<Cons> R; for (size_t i = 0; i < r.size; i++) { Cons c; if (!okcons(g, &r.p[i], c, "tarr")) return; R.push_back(c); if (!v.bot && ty >= AP_LINEXPR_QUASILINEAR && !quasi(c.e)) g.fail("tarr-quasi", w + " not quasilinear: " + c.str()); if (!v.bot && ty == AP_LINEXPR_LINEAR && !c.e.scalar() && !novar(c.e) && c.t != AP_CONS_EQMOD && c.t != AP_CONS_DISEQ) g.fail("tarr-linear", w + " not linear: " + c.str()); }
    for (auto* p : sat) for (auto& c : R) if (!may_(c, *p)) { g.fail("tarr", w + " loses " + pts(*p) + " by " + c.str()); return; }
    string s; for (auto& c : R) s += c.str() + "&"; g.ok(std::hash<string>()(s)); };
  for (ap_linexpr_type_t ty : {AP_LINEXPR_INTLINEAR, AP_LINEXPR_QUASILINEAR, AP_LINEXPR_LINEAR}) for (int meet = 1; meet < 2; meet++) for (int bx = 0; bx < 2; bx++) for (int km = 1; km < 3; km++) for (int io = 0; io < 2; io++) { if (!bx && (km > 1 || io)) continue; bool ex = true;
    string w = string("type ") + std::to_string(ty) + (bx ? " boxize" : "") + " k" + std::to_string(km) + (io ? " intervalonly" : ""); ap_lincons0_array_t r = ap_intlinearize_tcons0_array(man, a, &arr, &ex, DISC[d], ty, meet, bx, km, io); check(r, ty, w); ap_lincons0_array_clear(&r);
    A0* x = ap_abstract0_copy(man, a); auto ml = (void* (*)(ap_manager_t*, bool, void*, ap_lincons0_array_t*))man->funptr[AP_FUNID_MEET_LINCONS_ARRAY];
    if (bx && km == 2 && !io) { void* z = ap_generic_meet_intlinearize_tcons_array(man, false, x->value, &arr, DISC[d], ty, ml); A0 b; b.man = man; b.value = z; ap_lincons0_array_t q = ap_abstract0_to_lincons_array(man, &b); check(q, AP_LINEXPR_INTLINEAR, w + " generic meet"); ap_lincons0_array_clear(&q); ((void (*)(ap_manager_t*, void*))man->funptr[AP_FUNID_FREE])(man, z); }
    ap_abstract0_free(man, x); }
  ap_tcons0_array_clear(&arr);
}
static void lcons_case(G& g, const Val& v, A0* a, const Cons& s, int d) {
  Guard gd(g, a); ap_lincons0_array_t arr = mk_lincons_array({s, s}, true, rep(d)); Cons o = cons2(1, -1, 3); o.e.c[0] = Itv(Q(0), Q(1)); { ap_lincons0_clear(&arr.p[1]); arr.p[1] = mk_lincons(o, false, rep(d)); }
  for (int meet = 0; meet < 2; meet++) { bool ex = true; ap_lincons0_t r = ap_quasilinearize_lincons0(man, a, &arr.p[0], &ex, DISC[d], meet); Cons R; if (okcons(g, &r, R, "lcons")) { if (!v.bot && !quasi(R.e)) g.fail("lcons-quasi", "not quasilinear: " + R.str());
      for (auto& p : v.pts) { bool m = may_(s, p); if ((m && !may_(R, p)) || (!meet && !must(eval_itv(s.e, p), s.t, s.mod) && must(eval_itv(R.e, p), R.t, R.mod))) { g.fail("lcons", string(meet ? "meet" : "test") + " at " + pts(p) + ": " + R.str()); break; } } g.ok(std::hash<string>()(R.str())); }
    if (r.linexpr0 != arr.p[0].linexpr0) ap_lincons0_clear(&r);
    for (int ln = 0; ln < 2; ln++) { bool e1 = false, e2 = true; ap_lincons0_array_t q = ap_quasilinearize_lincons0_array(man, a, &arr, &e1, DISC[d], ln, meet), q2 = ap_quasilinearize_lincons0_array(man, a, &arr, &e2, DISC[d], ln, meet); if (e1 != e2) g.fail("exact", "exactness result not set"); if (q2.p != arr.p) ap_lincons0_array_clear(&q2);
      vector<Cons> RR; bool good = true; for (size_t i = 0; i < q.size; i++) { Cons c; if (!okcons(g, &q.p[i], c, "larr")) { good = false; break; } RR.push_back(c); if (!v.bot && !(ln && c.t != AP_CONS_EQMOD && c.t != AP_CONS_DISEQ ? c.e.scalar() || novar(c.e) : quasi(c.e))) g.fail("larr-form", "wrong form: " + c.str()); }
      if (good) for (auto& p : v.pts) { bool m = may_(s, p) && may_(o, p); bool rm = true, ru = true; for (auto& c : RR) { rm &= may_(c, p); ru &= must(eval_itv(c.e, p), c.t, c.mod); } bool su = must(eval_itv(s.e, p), s.t, s.mod) && must(eval_itv(o.e, p), o.t, o.mod);
        if ((meet && m && !rm) || (!meet && !su && ru)) { string t; for (auto& c : RR) t += c.str() + " & "; g.fail("larr", string(meet ? "meet" : "test") + (ln ? " linear" : "") + " at " + pts(p) + ": " + t); break; } }
      if (q.p != arr.p) ap_lincons0_array_clear(&q);
      if (meet) { A0* x = ap_abstract0_copy(man, a); auto ml = (void* (*)(ap_manager_t*, bool, void*, ap_lincons0_array_t*))man->funptr[AP_FUNID_MEET_LINCONS_ARRAY]; void* z = ap_generic_meet_quasilinearize_lincons_array(man, false, x->value, &arr, DISC[d], ln, ml); A0 b; b.man = man; b.value = z; ap_lincons0_array_t y = ap_abstract0_to_lincons_array(man, &b); for (size_t i = 0; i < y.size; i++) { Cons c = read_lincons(&y.p[i], 2); for (auto& p : v.pts) if (may_(s, p) && may_(o, p) && !may_(c, p)) { g.fail("genmeet", "loses " + pts(p) + " by " + c.str()); break; } } ap_lincons0_array_clear(&y); ((void (*)(ap_manager_t*, void*))man->funptr[AP_FUNID_FREE])(man, z); ap_abstract0_free(man, x); }
    } }
  ap_lincons0_array_clear(&arr);
}
int main(int argc, char** argv) {
  Runner R(argc, argv); D = open_dom(R.dom = R.opt["dom"]); man = D.man; if (!ap_fpu_init()) return 3; mkvals(); mktrees(); mklins(); bool deep = R.tier > 0, lite = R.opt.count("lite") && R.opt["lite"] != "0";
  for (size_t vi = 0; vi < VALS.size(); vi++) for (int d = 0; d < 3; d++) { if (lite && D.name != "boxMPQ" && (size_t)d != vi % 3) continue; const Val& v = VALS[vi]; string tag = v.name + DN[d];
    R.group("texpr " + tag, [=](G& g) { const Val& v = VALS[vi]; A0* a = mkval(v); size_t st = lite ? 7 : deep ? 1 : 2; for (size_t i = 0; i < TS.size(); i++) { if (i > (lite ? 250u : 700u) && i % st) continue; const TEP& t = TS[i]; if (!okmod(t, v.ni)) continue; if (g.next([&] { return tes(t); })) texpr_case(g, v, a, t, d); } ap_abstract0_free(man, a); });
    R.group("lin " + tag, [=](G& g) { const Val& v = VALS[vi]; A0* a = mkval(v); for (auto& l : LINS) for (int sp = 0; sp < 2; sp++) if (g.next([&] { return l.str() + (sp ? "s" : "d"); })) lin_case(g, v, a, l, d, sp); ap_abstract0_free(man, a); });
    R.group("tcons " + tag, [=](G& g) { const Val& v = VALS[vi]; A0* a = mkval(v); size_t st = lite ? 23 : deep ? 1 : 5; for (size_t i = 0; i < TS.size(); i += (i < (lite ? 150u : 700u) ? 1 : st)) if (okmod(TS[i], v.ni)) for (int ct = 0; ct < 5; ct++) if (g.next([&] { return tes(TS[i]) + CT[ct]; })) tcons_case(g, v, a, TS[i], ct, d); ap_abstract0_free(man, a); });
    R.group("tarr " + tag, [=](G& g) { const Val& v = VALS[vi]; A0* a = mkval(v); for (size_t i = 0; i < TSS.size(); i++) for (int c1 = 0; c1 < 5; c1++) { vector<TCons> s{{TSS[i], c1, MODV}}; if (g.next([&] { return s[0].str(); })) tarr_case(g, v, a, s, d);
        for (size_t j = 0; j < TSS.size(); j++) for (int c2 : {0, 1, 2, 3, 4}) { if (!deep && (c2 > 1 || (lite && (i * 5 + j) % 4))) continue; vector<TCons> z{s[0], {TSS[j], c2, MODV}}; if (g.next([&] { return z[0].str() + " & " + z[1].str(); })) tarr_case(g, v, a, z, d); } } ap_abstract0_free(man, a); });
    R.group("lcons " + tag, [=](G& g) { const Val& v = VALS[vi]; A0* a = mkval(v); size_t li = 0; for (auto& l : LINS) for (int ct = 0; ct < 5; ct++) { if (lite && li++ % 3) continue; Cons c; c.e = l; c.t = ct; c.mod = MODV; if (g.next([&] { return c.str(); })) lcons_case(g, v, a, c, d); } ap_abstract0_free(man, a); });
  }
  return R.run();
}
