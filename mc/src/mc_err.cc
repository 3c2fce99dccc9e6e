// Invalid calls: every operation with every ill-formed argument of a bounded alphabet (C21).
#include "env.hh"
#include "engine.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
typedef ap_abstract0_t A0; typedef ap_abstract1_t A1;
static Dom D, E; static ap_manager_t *man, *oman; static int NI, NR; static size_t n;
// harness actions between the operation under test and the look at its flags
static void keep(std::function<void()> f) { bool fe = man->result.flag_exact, fb = man->result.flag_best; f(); man->result.flag_exact = fe; man->result.flag_best = fb; }
static void clearx(ap_manager_t* m) { ap_manager_clear_exclog(m); m->result.exn = AP_EXC_NONE; m->result.flag_exact = m->result.flag_best = true; }
static string txt(A0* a, const Dom& d) { View v = view(d, a); if (d.kind == K_GRID) { using PPL::IO_Operators::operator<<; std::ostringstream o; o << v.G.minimized_congruences(); return o.str(); } return polys(v.P) + v.txt; }
static Cons mk(vector<Q> a, Q k, int t, Q mod = 0) { Cons c; c.t = t; c.mod = mod; for (auto& x : a) c.e.c.push_back(Itv(x)); c.e.k = Itv(k); return c; }
// ---- values ----
static const int NS = 4;
static A0* value(const Dom& d, int k, int ni, int nr) { ap_manager_t* m = d.man; size_t s = ni + nr; if (k == 0) return ap_abstract0_top(m, ni, nr); if (k == 1) return ap_abstract0_bottom(m, ni, nr);
  vector<Cons> v; for (size_t i = 0; i < s; i++) { vector<Q> c(s, Q(0)); c[i] = 1; v.push_back(mk(c, k == 2 ? 1 : 0, k == 2 ? AP_CONS_SUPEQ : AP_CONS_EQ)); if (k == 2) { c[i] = -1; v.push_back(mk(c, 2 + (long)i, AP_CONS_SUPEQ)); } }
  if (k == 2 && s > 1) { vector<Q> c(s, Q(0)); c[0] = 1; c[1] = 1; v.push_back(mk(c, 1, AP_CONS_SUPEQ)); }
  ap_lincons0_array_t a = mk_lincons_array(v, true); A0* r = ap_abstract0_of_lincons_array(m, ni, nr, &a); ap_lincons0_array_clear(&a); return r; }
// ---- checks of one invalid call ----
static string exs(ap_manager_t* m) { string s; for (ap_exclog_t* x = m->result.exclog; x; x = x->tail) s += string(ap_name_of_exception[x->exn]) + " in " + ap_name_of_funid[x->funid] + "; "; return s; }
// exactly: the exception, its function and the log
static bool raised(G& g, int f1, int f2 = 0, ap_manager_t* m = nullptr) { if (!m) m = man; if (m->result.exn != AP_EXC_INVALID_ARGUMENT) { g.fail("noexn", "no invalid-argument exception; manager has " + std::to_string(m->result.exn)); return false; }
  bool ok = false; for (ap_exclog_t* x = m->result.exclog; x; x = x->tail) if (x->exn == AP_EXC_INVALID_ARGUMENT && (f1 == 0 || x->funid == f1 || (f2 && x->funid == f2)) && x->msg) ok = true; if (!ok) g.fail("log", "the log does not name the exception and function: " + exs(m)); if (ap_manager_get_exception(m) != m->result.exn || ap_manager_get_exclog(m) != m->result.exclog) g.fail("log", "ap_manager_get_exception"); return ok; }
static void quiet(G& g, const string& what) { if (man->result.exn != AP_EXC_NONE || man->result.exclog) g.fail("spurious", what + ": valid call reports " + exs(man)); }
static bool istop(A0* r, ap_manager_t* m) { ap_dimension_t d = ap_abstract0_dimension(m, r); A0* t = ap_abstract0_top(m, d.intdim, d.realdim); bool ok = ap_abstract0_is_leq(m, t, r); ap_abstract0_free(m, t); return ok; }
typedef std::function<A0*(bool, A0*)> F0;
// an invalid operation with a result: in both forms, on every value
static void op0(G& g, const string& nm, int fid, long ei, long er, F0 f, int fid2 = 0, bool destr = true) {
  for (int k = 0; k < NS; k++) for (int ds = 0; ds < (destr ? 2 : 1); ds++) if (g.next([&] { return nm + " v" + std::to_string(k) + (ds ? " destructive" : ""); })) {
    A0* a = value(D, k, NI, NR); string before = txt(a, D); clearx(man); A0* r = f(ds, a); raised(g, fid, fid2); if (man->result.flag_exact || man->result.flag_best) g.fail("flags", "result flagged exact or best after an invalid call");
    if (!r) { g.fail("null", "no result"); if (!ds) ap_abstract0_free(man, a); continue; }
    clearx(man); ap_dimension_t d = ap_abstract0_dimension(man, r); if ((long)d.intdim != ei || (long)d.realdim != er) g.fail("dim", "result has dimensions " + std::to_string(d.intdim) + "," + std::to_string(d.realdim) + " expected " + std::to_string(ei) + "," + std::to_string(er));
    if (d.intdim + d.realdim < 50 && !istop(r, man)) g.fail("default", "the default result is not top: " + txt(r, D));
    if (!ds) { if (txt(a, D) != before) g.fail("args", "argument changed from " + before + " to " + txt(a, D)); A0* c = ap_abstract0_copy(man, a); c = ap_abstract0_meet(man, true, c, a); if (!ap_abstract0_is_eq(man, c, a)) g.fail("args", "argument unusable"); ap_abstract0_free(man, c); ap_abstract0_free(man, a); }
    quiet(g, "later call"); ap_abstract0_free(man, r); g.state(); g.ok(std::hash<string>()(nm) + k * 2 + ds); } }
// an invalid test: false, not exact
static void test0(G& g, const string& nm, int fid, std::function<bool(A0*)> f) { for (int k = 0; k < NS; k++) if (g.next([&] { return nm + " v" + std::to_string(k); })) { A0* a = value(D, k, NI, NR); string before = txt(a, D); clearx(man); bool r = f(a); raised(g, fid); if (r || man->result.flag_exact) g.fail("test", "an invalid test gives " + string(r ? "true" : "an exact false")); clearx(man); if (txt(a, D) != before) g.fail("args", "argument changed"); ap_abstract0_free(man, a); g.state(); g.ok(std::hash<string>()(nm) + k); } }
static void bound0(G& g, const string& nm, int fid, std::function<ap_interval_t*(A0*)> f) { for (int k = 0; k < NS; k++) if (g.next([&] { return nm + " v" + std::to_string(k); })) { A0* a = value(D, k, NI, NR); string before = txt(a, D); clearx(man); ap_interval_t* r = f(a); raised(g, fid); if (!r || !ap_interval_is_top(r)) g.fail("bound", "an invalid bound query does not give top"); if (r) ap_interval_free(r); clearx(man); if (txt(a, D) != before) g.fail("args", "argument changed"); ap_abstract0_free(man, a); g.state(); g.ok(std::hash<string>()(nm) + k); } }
// ---- bad expressions ----
struct BL { string name; std::function<ap_linexpr0_t*()> f; bool bad; };
static ap_linexpr0_t* sparse(vector<std::pair<ap_dim_t, long>> t) { ap_linexpr0_t* e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, t.size()); for (size_t i = 0; i < t.size(); i++) { e->p.linterm[i].dim = t[i].first; ap_coeff_set_scalar_int(&e->p.linterm[i].coeff, t[i].second); } ap_coeff_set_scalar_int(&e->cst, 1); return e; }
static ap_linexpr0_t* dense(size_t k, long c) { ap_linexpr0_t* e = ap_linexpr0_alloc(AP_LINEXPR_DENSE, k); for (size_t i = 0; i < k; i++) ap_coeff_set_scalar_int(&e->p.coeff[i], c); ap_coeff_set_scalar_int(&e->cst, 1); return e; }
static vector<BL> lins() { vector<BL> v; size_t m = n; v.push_back({"sparse(n)", [m] { return sparse({{(ap_dim_t)m, 1}}); }, true}); v.push_back({"sparse(n+3,coefficient 0)", [m] { return sparse({{(ap_dim_t)(m + 3), 0}}); }, true}); v.push_back({"dense(n+1)", [m] { return dense(m + 1, 1); }, true}); v.push_back({"dense(n+2) zero", [m] { return dense(m + 2, 0); }, true});
  if (m) { v.push_back({"sparse(0,n)", [m] { return sparse({{0, 1}, {(ap_dim_t)m, 1}}); }, true}); v.push_back({"sparse(0,n,hole)", [m] { return sparse({{0, 1}, {(ap_dim_t)m, 1}, {AP_DIM_MAX, 0}}); }, true}); v.push_back({"sparse(0,hole)", [] { return sparse({{0, 1}, {AP_DIM_MAX, 0}}); }, false}); v.push_back({"dense(n-1)", [m] { return dense(m - 1, 1); }, false}); v.push_back({"sparse(n-1)", [m] { return sparse({{(ap_dim_t)(m - 1), 1}}); }, false}); v.push_back({"dense(n)", [m] { return dense(m, 1); }, false}); }
  v.push_back({"sparse()", [] { return sparse({}); }, false}); v.push_back({"sparse(hole)", [] { return sparse({{AP_DIM_MAX, 0}}); }, false}); v.push_back({"dense()", [] { return dense(0, 1); }, false}); return v; }
struct BT { string name; std::function<ap_texpr0_t*()> f; bool bad; };
static ap_texpr0_t* tdm(size_t d) { return ap_texpr0_dim(d); }
static vector<BT> texs() { vector<BT> v; size_t m = n; auto R = AP_RTYPE_REAL; auto N = AP_RDIR_RND; v.push_back({"dim(n)", [m] { return tdm(m); }, true}); v.push_back({"1+-dim(n)", [m, R, N] { return ap_texpr0_binop(AP_TEXPR_ADD, ap_texpr0_cst_scalar_int(1), ap_texpr0_unop(AP_TEXPR_NEG, tdm(m), R, N), R, N); }, true}); v.push_back({"dim(n+2)*dim(n)", [m, R, N] { return ap_texpr0_binop(AP_TEXPR_MUL, tdm(m + 2), tdm(m), R, N); }, true});
  if (m) { v.push_back({"dim(0)/dim(n)", [m, R, N] { return ap_texpr0_binop(AP_TEXPR_DIV, tdm(0), tdm(m), R, N); }, true}); v.push_back({"dim(n)-dim(0)", [m, R, N] { return ap_texpr0_binop(AP_TEXPR_SUB, tdm(m), tdm(0), R, N); }, true}); v.push_back({"dim(n-1)+1", [m, R, N] { return ap_texpr0_binop(AP_TEXPR_ADD, tdm(m - 1), ap_texpr0_cst_scalar_int(1), R, N); }, false}); }
  v.push_back({"cst", [] { return ap_texpr0_cst_scalar_int(2); }, false}); return v; }
struct Gd { ap_manager_t* m; A0* a; ~Gd() { if (a) ap_abstract0_free(m, a); } };
static ap_lincons0_array_t lca(vector<ap_linexpr0_t*> e, int t) { ap_lincons0_array_t r = ap_lincons0_array_make(e.size()); for (size_t i = 0; i < e.size(); i++) r.p[i] = ap_lincons0_make((ap_constyp_t)t, e[i], t == AP_CONS_EQMOD ? ap_scalar_alloc_set_double(2) : NULL); return r; }
static ap_tcons0_array_t tca(vector<ap_texpr0_t*> e, int t) { ap_tcons0_array_t r = ap_tcons0_array_make(e.size()); for (size_t i = 0; i < e.size(); i++) r.p[i] = ap_tcons0_make((ap_constyp_t)t, e[i], t == AP_CONS_EQMOD ? ap_scalar_alloc_set_double(2) : NULL); return r; }
static ap_generator0_array_t gna(vector<ap_linexpr0_t*> e, int t) { ap_generator0_array_t r = ap_generator0_array_make(e.size()); for (size_t i = 0; i < e.size(); i++) r.p[i] = ap_generator0_make((ap_gentyp_t)t, e[i]); return r; }
template<class T> static vector<vector<T>> tuples(const vector<T>& al, size_t len) { vector<vector<T>> r{{}}; for (size_t i = 0; i < len; i++) { vector<vector<T>> s; for (auto& x : r) for (auto& y : al) { auto z = x; z.push_back(y); s.push_back(z); } r = s; } return r; }
static string ds(const vector<ap_dim_t>& v) { string s = "["; for (auto d : v) s += (d == AP_DIM_MAX ? string("max") : std::to_string(d)) + " "; return s + "]"; }
// a valid call: no exception and no log (the result is judged by the other properties)
static void valid(G& g, const string& nm, std::function<A0*(bool, A0*)> f, long ei, long er) { for (int k = 0; k < NS; k++) for (int d = 0; d < 2; d++) if (g.next([&] { return "valid " + nm + " v" + std::to_string(k) + (d ? " destructive" : ""); })) { A0* a = value(D, k, NI, NR); clearx(man); A0* r = f(d, a); quiet(g, nm); ap_dimension_t dm = ap_abstract0_dimension(man, r); if ((long)dm.intdim != ei || (long)dm.realdim != er) g.fail("dim", "valid call gives dimensions " + std::to_string(dm.intdim) + "," + std::to_string(dm.realdim)); ap_abstract0_free(man, r); if (!d) ap_abstract0_free(man, a); g.state(); g.ok(std::hash<string>()(nm) + k * 2 + d); } }
#define DIMS(f) [=](G& g) { NI = ni; NR = nr; n = ni + nr; f; }
static void g_exprs(G& g) {
  for (auto& b : lins()) { auto l = b.f; 
    for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ}) for (int form = 0; form < 3; form++) { string nm = "meet_lincons" + string(CT[t]) + " " + b.name + " form" + std::to_string(form); F0 f = [=](bool d, A0* a) { vector<ap_linexpr0_t*> e{l()}; if (form) e.insert(form == 1 ? e.begin() : e.end(), sparse({})); auto z = lca(e, t); A0* r = ap_abstract0_meet_lincons_array(man, d, a, &z); ap_lincons0_array_clear(&z); return r; }; if (b.bad) op0(g, nm, AP_FUNID_MEET_LINCONS_ARRAY, NI, NR, f); else valid(g, nm, f, NI, NR); }
    for (int sub = 0; sub < 2; sub++) { int fid = sub ? AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY : AP_FUNID_ASSIGN_LINEXPR_ARRAY; auto fa = sub ? ap_abstract0_substitute_linexpr_array : ap_abstract0_assign_linexpr_array; auto f1 = sub ? ap_abstract0_substitute_linexpr : ap_abstract0_assign_linexpr; string S = sub ? "substitute" : "assign"; if (n == 0) continue;
      F0 one = [=](bool d, A0* a) { ap_linexpr0_t* e = l(); A0* r = f1(man, d, a, n - 1, e, NULL); ap_linexpr0_free(e); return r; }; if (b.bad) op0(g, S + "1 " + b.name, fid, NI, NR, one); else valid(g, S + "1 " + b.name, one, NI, NR);
      if (n >= 2) { F0 two = [=](bool d, A0* a) { ap_linexpr0_t* e[2] = {sparse({{0, 1}}), l()}; ap_dim_t td[2] = {0, 1}; A0* r = fa(man, d, a, td, e, 2, NULL); for (auto* x : e) ap_linexpr0_free(x); return r; }; if (b.bad) op0(g, S + "2 " + b.name, fid, NI, NR, two); else valid(g, S + "2 " + b.name, two, NI, NR); } }
    if (b.bad) { for (int t : {AP_GEN_LINE, AP_GEN_RAY}) for (int form = 0; form < 2; form++) op0(g, "add_ray " + b.name + std::to_string(t) + std::to_string(form), AP_FUNID_ADD_RAY_ARRAY, NI, NR, [=](bool d, A0* a) { vector<ap_linexpr0_t*> e{l()}; if (form && n) e.insert(e.begin(), sparse({{0, 1}})); auto z = gna(e, t); A0* r = ap_abstract0_add_ray_array(man, d, a, &z); ap_generator0_array_clear(&z); return r; });
      for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ}) { test0(g, "sat_lincons" + string(CT[t]) + " " + b.name, AP_FUNID_SAT_LINCONS, [=](A0* a) { ap_lincons0_t c = ap_lincons0_make((ap_constyp_t)t, l(), NULL); bool r = ap_abstract0_sat_lincons(man, a, &c); ap_lincons0_clear(&c); return r; });
        op0(g, "widening_threshold" + string(CT[t]) + " " + b.name, AP_FUNID_WIDENING, NI, NR, [=](bool, A0* a) { auto z = lca({sparse({}), l()}, t); A0* r = ap_abstract0_widening_threshold(man, a, a, &z); ap_lincons0_array_clear(&z); return r; }, 0, false);
        op0(g, "of_lincons" + string(CT[t]) + " " + b.name, AP_FUNID_MEET_LINCONS_ARRAY, NI, NR, [=](bool, A0*) { auto z = lca({sparse({}), l()}, t); A0* r = ap_abstract0_of_lincons_array(man, NI, NR, &z); ap_lincons0_array_clear(&z); return r; }, 0, false); }
      bound0(g, "bound_linexpr " + b.name, AP_FUNID_BOUND_LINEXPR, [=](A0* a) { auto* e = l(); auto* r = ap_abstract0_bound_linexpr(man, a, e); ap_linexpr0_free(e); return r; }); } }
  for (auto& b : texs()) { auto l = b.f;
    for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ}) for (int form = 0; form < 3; form++) { string nm = "meet_tcons" + string(CT[t]) + " " + b.name + " form" + std::to_string(form); F0 f = [=](bool d, A0* a) { vector<ap_texpr0_t*> e{l()}; if (form) e.insert(form == 1 ? e.begin() : e.end(), ap_texpr0_cst_scalar_int(0)); auto z = tca(e, t); A0* r = ap_abstract0_meet_tcons_array(man, d, a, &z); ap_tcons0_array_clear(&z); return r; }; if (b.bad) op0(g, nm, AP_FUNID_MEET_TCONS_ARRAY, NI, NR, f); else valid(g, nm, f, NI, NR); }
    for (int sub = 0; sub < 2; sub++) { int fid = sub ? AP_FUNID_SUBSTITUTE_TEXPR_ARRAY : AP_FUNID_ASSIGN_TEXPR_ARRAY; auto fa = sub ? ap_abstract0_substitute_texpr_array : ap_abstract0_assign_texpr_array; auto f1 = sub ? ap_abstract0_substitute_texpr : ap_abstract0_assign_texpr; string S = sub ? "substitute_t" : "assign_t"; if (n == 0) continue;
      F0 one = [=](bool d, A0* a) { auto* e = l(); A0* r = f1(man, d, a, n - 1, e, NULL); ap_texpr0_free(e); return r; }; if (b.bad) op0(g, S + "1 " + b.name, fid, NI, NR, one); else valid(g, S + "1 " + b.name, one, NI, NR);
      if (n >= 2) { F0 two = [=](bool d, A0* a) { ap_texpr0_t* e[2] = {tdm(0), l()}; ap_dim_t td[2] = {0, 1}; A0* r = fa(man, d, a, td, e, 2, NULL); for (auto* x : e) ap_texpr0_free(x); return r; }; if (b.bad) op0(g, S + "2 " + b.name, fid, NI, NR, two); else valid(g, S + "2 " + b.name, two, NI, NR); } }
    if (b.bad) { for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ}) { test0(g, "sat_tcons" + string(CT[t]) + " " + b.name, AP_FUNID_SAT_TCONS, [=](A0* a) { ap_tcons0_t c = ap_tcons0_make((ap_constyp_t)t, l(), NULL); bool r = ap_abstract0_sat_tcons(man, a, &c); ap_tcons0_clear(&c); return r; });
        op0(g, "of_tcons" + string(CT[t]) + " " + b.name, AP_FUNID_MEET_TCONS_ARRAY, NI, NR, [=](bool, A0*) { auto z = tca({l()}, t); A0* r = ap_abstract0_of_tcons_array(man, NI, NR, &z); ap_tcons0_array_clear(&z); return r; }, 0, false); }
      bound0(g, "bound_texpr " + b.name, AP_FUNID_BOUND_TEXPR, [=](A0* a) { auto* e = l(); auto* r = ap_abstract0_bound_texpr(man, a, e); ap_texpr0_free(e); return r; }); } }
  // null pointers in arrays
  op0(g, "meet_lincons null", AP_FUNID_MEET_LINCONS_ARRAY, NI, NR, [=](bool d, A0* a) { auto z = lca({sparse({}), NULL}, AP_CONS_EQ); A0* r = ap_abstract0_meet_lincons_array(man, d, a, &z); ap_lincons0_array_clear(&z); return r; }); op0(g, "meet_tcons null", AP_FUNID_MEET_TCONS_ARRAY, NI, NR, [=](bool d, A0* a) { auto z = tca({ap_texpr0_cst_scalar_int(0), NULL}, AP_CONS_EQ); A0* r = ap_abstract0_meet_tcons_array(man, d, a, &z); ap_tcons0_array_clear(&z); return r; }); op0(g, "add_ray null", AP_FUNID_ADD_RAY_ARRAY, NI, NR, [=](bool d, A0* a) { auto z = gna({NULL}, AP_GEN_RAY); A0* r = ap_abstract0_add_ray_array(man, d, a, &z); ap_generator0_array_clear(&z); return r; });
  if (n) { op0(g, "assign null", AP_FUNID_ASSIGN_LINEXPR_ARRAY, NI, NR, [=](bool d, A0* a) { ap_dim_t t = 0; ap_linexpr0_t* e = NULL; return ap_abstract0_assign_linexpr_array(man, d, a, &t, &e, 1, NULL); }); op0(g, "assign_t null", AP_FUNID_ASSIGN_TEXPR_ARRAY, NI, NR, [=](bool d, A0* a) { ap_dim_t t = 0; ap_texpr0_t* e = NULL; return ap_abstract0_assign_texpr_array(man, d, a, &t, &e, 1, NULL); }); op0(g, "substitute null", AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY, NI, NR, [=](bool d, A0* a) { ap_dim_t t = 0; ap_linexpr0_t* e = NULL; return ap_abstract0_substitute_linexpr_array(man, d, a, &t, &e, 1, NULL); }); op0(g, "substitute_t null", AP_FUNID_SUBSTITUTE_TEXPR_ARRAY, NI, NR, [=](bool d, A0* a) { ap_dim_t t = 0; ap_texpr0_t* e = NULL; return ap_abstract0_substitute_texpr_array(man, d, a, &t, &e, 1, NULL); }); }
}
static void g_dims(G& g) { vector<ap_dim_t> out{(ap_dim_t)n, (ap_dim_t)(n + 2), AP_DIM_MAX}; size_t N = n;
  for (auto d : out) { string s = " dim" + ds({d}); test0(g, "sat_interval" + s, AP_FUNID_SAT_INTERVAL, [=](A0* a) { ap_interval_t* i = ap_interval_alloc(); ap_interval_set_top(i); bool r = ap_abstract0_sat_interval(man, a, d, i); ap_interval_free(i); return r; }); test0(g, "is_dimension_unconstrained" + s, AP_FUNID_IS_DIMENSION_UNCONSTRAINED, [=](A0* a) { return ap_abstract0_is_dimension_unconstrained(man, a, d); }); bound0(g, "bound_dimension" + s, AP_FUNID_BOUND_DIMENSION, [=](A0* a) { return ap_abstract0_bound_dimension(man, a, d); });
    for (size_t k = 1; k < 4; k++) op0(g, "expand" + s + " x" + std::to_string(k), AP_FUNID_EXPAND, NI + 0, NR + (long)k, [=](bool x, A0* a) { return ap_abstract0_expand(man, x, a, d, k); });
    for (int pos = 0; pos < 3; pos++) { if (pos && !N) continue; vector<ap_dim_t> t = pos == 0 ? vector<ap_dim_t>{d} : pos == 1 ? vector<ap_dim_t>{0, d} : vector<ap_dim_t>{d, 0}; string q = ds(t);
      for (int pr = 0; pr < 2; pr++) op0(g, "forget " + q + (pr ? " project" : ""), AP_FUNID_FORGET_ARRAY, NI, NR, [=](bool x, A0* a) { auto u = t; return ap_abstract0_forget_array(man, x, a, u.data(), u.size(), pr); });
      for (int sub = 0; sub < 2; sub++) { op0(g, string(sub ? "substitute " : "assign ") + q, sub ? AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY : AP_FUNID_ASSIGN_LINEXPR_ARRAY, NI, NR, [=](bool x, A0* a) { auto u = t; ap_linexpr0_t* e[2] = {sparse({}), sparse({})}; A0* r = (sub ? ap_abstract0_substitute_linexpr_array : ap_abstract0_assign_linexpr_array)(man, x, a, u.data(), e, u.size(), NULL); for (auto* p : e) ap_linexpr0_free(p); return r; });
        op0(g, string(sub ? "substitute_t " : "assign_t ") + q, sub ? AP_FUNID_SUBSTITUTE_TEXPR_ARRAY : AP_FUNID_ASSIGN_TEXPR_ARRAY, NI, NR, [=](bool x, A0* a) { auto u = t; ap_texpr0_t* e[2] = {ap_texpr0_cst_scalar_int(1), ap_texpr0_cst_scalar_int(1)}; A0* r = (sub ? ap_abstract0_substitute_texpr_array : ap_abstract0_assign_texpr_array)(man, x, a, u.data(), e, u.size(), NULL); for (auto* p : e) ap_texpr0_free(p); return r; }); } } }
  // fold: every array of bounded length
  vector<ap_dim_t> al; for (size_t i = 0; i <= N; i++) al.push_back(i); for (size_t len = 0; len <= 3; len++) for (auto& t : tuples(al, len)) { bool ok = len > 0; for (size_t i = 0; i < len; i++) { if (t[i] >= N) ok = false; if (i && t[i] <= t[i - 1]) ok = false; } if (ok && (int)t[0] < NI && (int)t[len - 1] >= NI) ok = false; bool isint = len && (int)t[0] < NI; long k = len ? len - 1 : 0; long ei = isint ? std::max(0L, NI - k) : NI, er = isint || !len ? NR : std::max(0L, NR - k);
    F0 f = [=](bool x, A0* a) { auto u = t; u.push_back(0); return ap_abstract0_fold(man, x, a, u.data(), t.size()); }; if (ok) valid(g, "fold" + ds(t), f, ei, er); else op0(g, "fold" + ds(t), AP_FUNID_FOLD, ei, er, f); } }
static void g_change(G& g, int maxlen) { size_t N = n; vector<ap_dim_t> al; for (size_t i = 0; i <= N + 1; i++) al.push_back(i);
  for (int ci = 0; ci <= maxlen; ci++) for (int cr = 0; ci + cr <= maxlen; cr++) if (ci + cr) for (auto& t : tuples(al, ci + cr)) {
    bool add = true, rem = true; for (int i = 0; i < ci + cr; i++) { long d = t[i]; if (i) { if (t[i - 1] > t[i]) add = false; if (t[i - 1] >= t[i]) rem = false; } if (i < ci) { if (d > NI) add = false; if (d >= NI) rem = false; } else { if (d < NI || d > (long)N) add = false; if (d < NI || d >= (long)N) rem = false; } }
    string s = std::to_string(ci) + "+" + std::to_string(cr) + ds(t); auto mkc = [=] { ap_dimchange_t* c = ap_dimchange_alloc(ci, cr); for (size_t i = 0; i < t.size(); i++) c->dim[i] = t[i]; return c; };
    for (int pr = 0; pr < 2; pr++) { F0 fa = [=](bool x, A0* a) { auto* c = mkc(); A0* r = ap_abstract0_add_dimensions(man, x, a, c, pr); ap_dimchange_free(c); return r; }; string nm = "add_dimensions " + s + (pr ? " project" : ""); if (add) valid(g, nm, fa, NI + ci, NR + cr); else op0(g, nm, AP_FUNID_ADD_DIMENSIONS, NI + ci, NR + cr, fa); }
    F0 fr = [=](bool x, A0* a) { auto* c = mkc(); A0* r = ap_abstract0_remove_dimensions(man, x, a, c); ap_dimchange_free(c); return r; }; string nm = "remove_dimensions " + s; long ei = std::max(0, NI - ci), er = std::max(0, NR - cr); if (rem) valid(g, nm, fr, ei, er); else op0(g, nm, AP_FUNID_REMOVE_DIMENSIONS, ei, er, fr);
    // through apply_dimchange2: a bad addition (the removal is undone by it) and a bad removal
    if (!add && ci + cr <= 2) op0(g, "dimchange2 add " + s, AP_FUNID_ADD_DIMENSIONS, NI + ci, NR + cr, [=](bool x, A0* a) { ap_dimchange2_t* c = ap_dimchange2_alloc(mkc(), NULL); A0* r = ap_abstract0_apply_dimchange2(man, x, a, c, false); ap_dimchange2_free(c); return r; });
    if (!rem && ci + cr <= 2) op0(g, "dimchange2 remove " + s, AP_FUNID_REMOVE_DIMENSIONS, ei, er, [=](bool x, A0* a) { ap_dimchange2_t* c = ap_dimchange2_alloc(NULL, mkc()); A0* r = ap_abstract0_apply_dimchange2(man, x, a, c, false); ap_dimchange2_free(c); return r; }); } }
static void g_perm(G& g) { size_t N = n; vector<ap_dim_t> al; for (size_t i = 0; i <= N; i++) al.push_back(i);
  for (size_t len = N ? N - 1 : 0; len <= std::min(N + 1, (size_t)4); len++) for (auto& t : tuples(al, len)) { bool ok = len == N; std::set<ap_dim_t> s; for (size_t i = 0; i < len; i++) { if (t[i] >= N || !s.insert(t[i]).second) ok = false; if (ok && (((int)i < NI) != ((int)t[i] < NI))) ok = false; }
    // exchanging an integer with a real dimension is not in the alphabet: its status is not documented
    bool kinds = len == N && s.size() == N && !ok && *s.rbegin() < N; if (kinds) continue;
    F0 f = [=](bool x, A0* a) { ap_dimperm_t* p = ap_dimperm_alloc(t.size()); for (size_t i = 0; i < t.size(); i++) p->dim[i] = t[i]; A0* r = ap_abstract0_permute_dimensions(man, x, a, p); ap_dimperm_free(p); return r; }; if (ok) valid(g, "permute" + ds(t), f, NI, NR); else op0(g, "permute" + ds(t), AP_FUNID_PERMUTE_DIMENSIONS, NI, NR, f); } }
static void g_pairs(G& g) { struct B { string name; int lib, i, r; }; vector<B> bs; for (auto& d : vector<std::pair<int, int>>{{NI, NR + 1}, {NI + 1, NR}, {NI + 1, NR + 1}, {NR, NI}, {NI, NR}, {0, 0}}) for (int lib = 0; lib < 2; lib++) { if (!lib && d.first == NI && d.second == NR) continue; bs.push_back({string(lib ? "other library " : "") + std::to_string(d.first) + "," + std::to_string(d.second), lib, d.first, d.second}); }
  for (auto& b : bs) for (int bk = 0; bk < NS; bk++) { auto mkb = [=] { return value(b.lib ? E : D, bk, b.i, b.r); }; auto fr = [=](A0* x) { ap_abstract0_free(b.lib ? oman : man, x); }; string s = " with " + b.name + " v" + std::to_string(bk);
    auto both = [&](const string& nm, int fid, std::function<A0*(bool, A0*, A0*)> f, bool destr = true) { op0(g, nm + s, fid, NI, NR, [=](bool x, A0* a) { A0* y = mkb(); string before = txt(y, b.lib ? E : D); clearx(man); A0* r = f(x, a, y); bool fe = man->result.flag_exact, fb = man->result.flag_best; bool same = txt(y, b.lib ? E : D) == before; if (!same) { fprintf(stderr, "second argument changed\n"); abort(); } fr(y); man->result.flag_exact = fe; man->result.flag_best = fb; return r; }, 0, destr); };
    both("meet", AP_FUNID_MEET, [](bool x, A0* a, A0* y) { return ap_abstract0_meet(man, x, a, y); }); both("join", AP_FUNID_JOIN, [](bool x, A0* a, A0* y) { return ap_abstract0_join(man, x, a, y); }); both("widening", AP_FUNID_WIDENING, [](bool, A0* a, A0* y) { return ap_abstract0_widening(man, a, y); }, false); both("widening_threshold", AP_FUNID_WIDENING, [](bool, A0* a, A0* y) { ap_lincons0_array_t z = ap_lincons0_array_make(0); A0* r = ap_abstract0_widening_threshold(man, a, y, &z); ap_lincons0_array_clear(&z); return r; }, false);
    for (int form = 0; form < 2; form++) { both("meet_array" + std::to_string(form), AP_FUNID_MEET_ARRAY, [form](bool, A0* a, A0* y) { A0* t[3] = {a, form ? a : y, form ? y : a}; return ap_abstract0_meet_array(man, t, 3); }, false); both("join_array" + std::to_string(form), AP_FUNID_JOIN_ARRAY, [form](bool, A0* a, A0* y) { A0* t[3] = {a, form ? a : y, form ? y : a}; return ap_abstract0_join_array(man, t, 3); }, false); }
    if (n) for (int sub = 0; sub < 2; sub++) { both(string(sub ? "substitute" : "assign") + " dest", sub ? AP_FUNID_SUBSTITUTE_LINEXPR_ARRAY : AP_FUNID_ASSIGN_LINEXPR_ARRAY, [sub](bool x, A0* a, A0* y) { ap_linexpr0_t* e = sparse({{0, 1}}); A0* r = (sub ? ap_abstract0_substitute_linexpr : ap_abstract0_assign_linexpr)(man, x, a, 0, e, y); ap_linexpr0_free(e); return r; }); both(string(sub ? "substitute_t" : "assign_t") + " dest", sub ? AP_FUNID_SUBSTITUTE_TEXPR_ARRAY : AP_FUNID_ASSIGN_TEXPR_ARRAY, [sub](bool x, A0* a, A0* y) { auto* e = tdm(0); A0* r = (sub ? ap_abstract0_substitute_texpr : ap_abstract0_assign_texpr)(man, x, a, 0, e, y); ap_texpr0_free(e); return r; }); }
    test0(g, "is_leq" + s, AP_FUNID_IS_LEQ, [=](A0* a) { A0* y = mkb(); bool r = ap_abstract0_is_leq(man, a, y); keep([&] { fr(y); }); return r; }); test0(g, "is_eq" + s, AP_FUNID_IS_EQ, [=](A0* a) { A0* y = mkb(); bool r = ap_abstract0_is_eq(man, a, y); keep([&] { fr(y); }); return r; }); }
  // arrays of size 0
  op0(g, "meet_array empty", AP_FUNID_MEET_ARRAY, 0, 0, [](bool, A0*) { A0* t[1] = {NULL}; return ap_abstract0_meet_array(man, t, 0); }, 0, false); op0(g, "join_array empty", AP_FUNID_JOIN_ARRAY, 0, 0, [](bool, A0*) { A0* t[1] = {NULL}; return ap_abstract0_join_array(man, t, 0); }, 0, false); }
// a value of the other library as first argument
static void g_lib(G& g) { size_t N = n; struct O { string name; int fid; std::function<A0*(bool, A0*)> f; int di, dr; bool destr; }; vector<O> os; auto add = [&](const string& nm, int fid, std::function<A0*(bool, A0*)> f, bool ds = true, int di = 0, int dr = 0) { os.push_back({nm, fid, f, di, dr, ds}); };
  add("copy", AP_FUNID_COPY, [](bool, A0* a) { return ap_abstract0_copy(man, a); }, false); add("closure", AP_FUNID_CLOSURE, [](bool x, A0* a) { return ap_abstract0_closure(man, x, a); }); add("meet_lincons", AP_FUNID_MEET_LINCONS_ARRAY, [](bool x, A0* a) { auto z = lca({sparse({})}, AP_CONS_EQ); A0* r = ap_abstract0_meet_lincons_array(man, x, a, &z); ap_lincons0_array_clear(&z); return r; }); add("meet_tcons", AP_FUNID_MEET_TCONS_ARRAY, [](bool x, A0* a) { auto z = tca({ap_texpr0_cst_scalar_int(0)}, AP_CONS_EQ); A0* r = ap_abstract0_meet_tcons_array(man, x, a, &z); ap_tcons0_array_clear(&z); return r; }); add("add_ray", AP_FUNID_ADD_RAY_ARRAY, [](bool x, A0* a) { auto z = gna({sparse({})}, AP_GEN_RAY); A0* r = ap_abstract0_add_ray_array(man, x, a, &z); ap_generator0_array_clear(&z); return r; });
  add("add_dimensions", AP_FUNID_ADD_DIMENSIONS, [](bool x, A0* a) { ap_dimchange_t* c = ap_dimchange_alloc(0, 1); c->dim[0] = NI; A0* r = ap_abstract0_add_dimensions(man, x, a, c, false); ap_dimchange_free(c); return r; }, true, 0, 1); add("permute", AP_FUNID_PERMUTE_DIMENSIONS, [N](bool x, A0* a) { ap_dimperm_t* p = ap_dimperm_alloc(N); ap_dimperm_set_id(p); A0* r = ap_abstract0_permute_dimensions(man, x, a, p); ap_dimperm_free(p); return r; }); add("meet", AP_FUNID_MEET, [](bool x, A0* a) { A0* y = value(D, 2, NI, NR); A0* r = ap_abstract0_meet(man, x, a, y); ap_abstract0_free(man, y); return r; }); add("join", AP_FUNID_JOIN, [](bool x, A0* a) { A0* y = value(D, 2, NI, NR); A0* r = ap_abstract0_join(man, x, a, y); ap_abstract0_free(man, y); return r; }); add("widening", AP_FUNID_WIDENING, [](bool, A0* a) { A0* y = value(D, 2, NI, NR); A0* r = ap_abstract0_widening(man, a, y); ap_abstract0_free(man, y); return r; }, false);
  add("meet_array", AP_FUNID_MEET_ARRAY, [](bool, A0* a) { A0* t[1] = {a}; return ap_abstract0_meet_array(man, t, 1); }, false); add("join_array", AP_FUNID_JOIN_ARRAY, [](bool, A0* a) { A0* t[1] = {a}; return ap_abstract0_join_array(man, t, 1); }, false);
  if (N) { add("forget", AP_FUNID_FORGET_ARRAY, [](bool x, A0* a) { ap_dim_t d = 0; return ap_abstract0_forget_array(man, x, a, &d, 1, false); }); add("assign", AP_FUNID_ASSIGN_LINEXPR_ARRAY, [](bool x, A0* a) { auto* e = sparse({}); A0* r = ap_abstract0_assign_linexpr(man, x, a, 0, e, NULL); ap_linexpr0_free(e); return r; }); add("substitute_t", AP_FUNID_SUBSTITUTE_TEXPR_ARRAY, [](bool x, A0* a) { auto* e = tdm(0); A0* r = ap_abstract0_substitute_texpr(man, x, a, 0, e, NULL); ap_texpr0_free(e); return r; }); add("remove_dimensions", AP_FUNID_REMOVE_DIMENSIONS, [](bool x, A0* a) { ap_dimchange_t* c = ap_dimchange_alloc(NI ? 1 : 0, NI ? 0 : 1); c->dim[0] = 0; A0* r = ap_abstract0_remove_dimensions(man, x, a, c); ap_dimchange_free(c); return r; }, true, NI ? -1 : 0, NI ? 0 : -1); add("expand", AP_FUNID_EXPAND, [](bool x, A0* a) { return ap_abstract0_expand(man, x, a, 0, 2); }, true, NI ? 2 : 0, NI ? 0 : 2); add("fold", AP_FUNID_FOLD, [](bool x, A0* a) { ap_dim_t d = 0; return ap_abstract0_fold(man, x, a, &d, 1); }); }
  for (auto& o : os) for (int k = 0; k < NS; k++) for (int d = 0; d < (o.destr ? 2 : 1); d++) if (g.next([&] { return o.name + " v" + std::to_string(k) + (d ? " destructive" : ""); })) { A0* a = value(E, k, NI, NR); string before = txt(a, E); clearx(man); clearx(oman); A0* r = o.f(d, a); raised(g, o.fid); clearx(man); if (!r) { g.fail("null", "no result"); continue; } if (r->man->library != man->library) g.fail("lib", "result of the wrong library"); else { ap_dimension_t dm = ap_abstract0_dimension(man, r); if ((int)dm.intdim != NI + o.di || (int)dm.realdim != NR + o.dr) g.fail("dim", "dimensions " + std::to_string(dm.intdim) + "," + std::to_string(dm.realdim)); if (!istop(r, man)) g.fail("default", "not top"); ap_abstract0_free(man, r); }
      if (!d) { if (txt(a, E) != before) g.fail("args", "changed"); ap_abstract0_free(oman, a); } if (oman->result.exn) g.fail("other", "exception in the other manager"); g.state(); g.ok(std::hash<string>()(o.name) + k); }
  struct T { string name; int fid; std::function<bool(A0*)> f; }; vector<T> ts; auto tt = [&](const string& nm, int fid, std::function<bool(A0*)> f) { ts.push_back({nm, fid, f}); };
  tt("is_bottom", AP_FUNID_IS_BOTTOM, [](A0* a) { return !ap_abstract0_is_bottom(man, a); }); tt("is_top", AP_FUNID_IS_TOP, [](A0* a) { return !ap_abstract0_is_top(man, a); }); tt("size", AP_FUNID_ASIZE, [](A0* a) { return ap_abstract0_size(man, a) == 0; }); tt("minimize", AP_FUNID_MINIMIZE, [](A0* a) { ap_abstract0_minimize(man, a); return true; }); tt("canonicalize", AP_FUNID_CANONICALIZE, [](A0* a) { ap_abstract0_canonicalize(man, a); return true; }); tt("hash", 0, [](A0* a) { return ap_abstract0_hash(man, a) == 0; }); tt("approximate", AP_FUNID_APPROXIMATE, [](A0* a) { ap_abstract0_approximate(man, a, 1); return true; });
  tt("to_box", AP_FUNID_TO_BOX, [N](A0* a) { ap_interval_t** b = ap_abstract0_to_box(man, a); bool ok = true; if (b) { for (size_t i = 0; i < N; i++) ok = ok && ap_interval_is_top(b[i]); ap_interval_array_free(b, N); } return ok; }); tt("to_lincons", AP_FUNID_TO_LINCONS_ARRAY, [](A0* a) { auto z = ap_abstract0_to_lincons_array(man, a); bool ok = z.size == 0; ap_lincons0_array_clear(&z); return ok; }); tt("to_tcons", AP_FUNID_TO_TCONS_ARRAY, [](A0* a) { auto z = ap_abstract0_to_tcons_array(man, a); bool ok = z.size == 0; ap_tcons0_array_clear(&z); return ok; }); tt("to_gens", AP_FUNID_TO_GENERATOR_ARRAY, [](A0* a) { auto z = ap_abstract0_to_generator_array(man, a); bool ok = z.size == 0; ap_generator0_array_clear(&z); return ok; }); tt("serialize", AP_FUNID_SERIALIZE_RAW, [](A0* a) { ap_membuf_t b = ap_abstract0_serialize_raw(man, a); return b.ptr == NULL && b.size == 0; });
  tt("sat_lincons", AP_FUNID_SAT_LINCONS, [](A0* a) { auto c = ap_lincons0_make(AP_CONS_EQ, sparse({}), NULL); bool r = ap_abstract0_sat_lincons(man, a, &c); ap_lincons0_clear(&c); return !r; }); tt("is_leq", AP_FUNID_IS_LEQ, [](A0* a) { A0* y = value(D, 0, NI, NR); bool r = ap_abstract0_is_leq(man, a, y); keep([&] { ap_abstract0_free(man, y); }); return !r; }); tt("is_eq", AP_FUNID_IS_EQ, [](A0* a) { A0* y = value(D, 0, NI, NR); bool r = ap_abstract0_is_eq(man, a, y); keep([&] { ap_abstract0_free(man, y); }); return !r; }); tt("dimension", AP_FUNID_DIMENSION, [](A0* a) { ap_dimension_t d = ap_abstract0_dimension(man, a); return (int)d.intdim == NI && (int)d.realdim == NR; });
  tt("free", AP_FUNID_FREE, [](A0* a) { A0* c = ap_abstract0_copy(oman, a); ap_abstract0_free(man, c); return true; }); tt("fprint", AP_FUNID_FPRINT, [](A0* a) { FILE* f = fopen("/dev/null", "w"); ap_abstract0_fprint(f, man, a, NULL); fclose(f); return true; }); tt("fdump", AP_FUNID_FDUMP, [](A0* a) { FILE* f = fopen("/dev/null", "w"); ap_abstract0_fdump(f, man, a); fclose(f); return true; }); if (N) { tt("sat_interval", AP_FUNID_SAT_INTERVAL, [](A0* a) { ap_interval_t* i = ap_interval_alloc(); ap_interval_set_top(i); bool r = ap_abstract0_sat_interval(man, a, 0, i); ap_interval_free(i); return !r; }); tt("bound_dimension", AP_FUNID_BOUND_DIMENSION, [](A0* a) { ap_interval_t* i = ap_abstract0_bound_dimension(man, a, 0); bool ok = ap_interval_is_top(i); ap_interval_free(i); return ok; }); tt("unconstrained", AP_FUNID_IS_DIMENSION_UNCONSTRAINED, [](A0* a) { return !ap_abstract0_is_dimension_unconstrained(man, a, 0); }); }
  for (auto& t : ts) for (int k = 0; k < NS; k++) if (g.next([&] { return t.name + " v" + std::to_string(k); })) { A0* a = value(E, k, NI, NR); string before = txt(a, E); clearx(man); bool ok = t.f(a); raised(g, t.fid); if (!ok) g.fail("default", "the default answer is wrong"); clearx(man); if (txt(a, E) != before) g.fail("args", "changed"); ap_abstract0_free(oman, a); g.state(); g.ok(std::hash<string>()(t.name) + k); } }
#include "mc_err1.hh"
int main(int argc, char** argv) {
  Runner R(argc, argv); D = open_dom(R.dom = R.opt["dom"]); E = open_dom(R.opt["other"]); man = D.man; oman = E.man; bool deep = R.tier > 0;
  vector<std::pair<int, int>> dims{{0, 0}, {0, 1}, {0, 2}, {1, 1}, {2, 0}}; if (deep) { dims.push_back({0, 3}); dims.push_back({1, 2}); dims.push_back({2, 1}); }
  for (auto& dm : dims) { int ni = dm.first, nr = dm.second; string dn = " " + std::to_string(ni) + "," + std::to_string(nr);
    R.group("expressions" + dn, DIMS(g_exprs(g))); R.group("dims" + dn, DIMS(g_dims(g))); R.group("dimchange" + dn, DIMS(g_change(g, deep || ni + nr < 2 ? 3 : 2))); R.group("permutation" + dn, DIMS(g_perm(g))); R.group("pairs" + dn, DIMS(g_pairs(g))); R.group("library" + dn, DIMS(g_lib(g))); }
  level1(R); return R.run(); }
