// The C++ classes against the C interface (C24).
#include "base.hh"
#include "env.hh"
#include "dom.hh"
#include "flat.hh"
#include "apronxx.hh"
namespace X = apron;
using flat::G; using flat::Runner;
typedef ap_abstract0_t A0; typedef ap_abstract1_t A1; typedef X::abstract0 XA; typedef X::abstract1 XB;
static Dom D; static ap_manager_t* man; static X::manager* M;
static void rst() { man->result.exn = AP_EXC_NONE; if (man->result.exclog) ap_manager_clear_exclog(man); }
static string slurp(std::function<void(FILE*)> f) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); f(o); fclose(o); string s = p; free(p); return s; }
static string iv(const ap_interval_t* i) { Itv x = interval_q(i); return "[" + es(x.lo) + "," + es(x.hi) + "]"; }
static string iv(const X::interval& i) { return iv(i.get_ap_interval_t()); }
static string sc(const ap_scalar_t* s) { return std::to_string(s->discr) + ":" + es(scalar_q(s)); }
static string co(const ap_coeff_t* c) { Itv x = coeff_q(c); return std::to_string(c->discr) + (c->discr ? iv(c->val.interval) : sc(c->val.scalar)); }
static string lx(ap_linexpr0_t* e) { return slurp([&](FILE* o) { ap_linexpr0_fprint(o, e, NULL); }) + "#" + std::to_string(e->discr) + "/" + std::to_string(e->size); }
static string lc(ap_lincons0_t* c) { return slurp([&](FILE* o) { ap_lincons0_fprint(o, c, NULL); }); }
static string la(const ap_lincons0_array_t* a) { return slurp([&](FILE* o) { ap_lincons0_array_fprint(o, (ap_lincons0_array_t*)a, NULL); }); }
static string ta(const ap_tcons0_array_t* a) { return slurp([&](FILE* o) { ap_tcons0_array_fprint(o, (ap_tcons0_array_t*)a, NULL); }); }
static string ga(const ap_generator0_array_t* a) { return slurp([&](FILE* o) { ap_generator0_array_fprint(o, (ap_generator0_array_t*)a, NULL); }); }
static string te(ap_texpr0_t* e) { return slurp([&](FILE* o) { ap_texpr0_fprint(o, e, NULL); }); }
static string ab(A0* a) { rst(); string s = slurp([&](FILE* o) { ap_abstract0_fprint(o, man, a, NULL); }); for (auto& c : s) if (c == '\n') c = ' '; return s; }
static bool same(A0* a, A0* b) { if (!a || !b) return false; rst(); ap_dimension_t x = ap_abstract0_dimension(man, a), y = ap_abstract0_dimension(man, b); bool r = x.intdim == y.intdim && x.realdim == y.realdim && ap_abstract0_is_eq(man, a, b); rst(); return r; }
// ---- alphabet ----
static const int NI = 1, NR = 2, N = NI + NR;   // x0 integer, x1 x2 real
static Cons con(std::initializer_list<int> c, int k, int t = AP_CONS_SUPEQ) { Cons r; for (int x : c) r.e.c.push_back(Itv(Q(x))); r.e.k = Itv(Q(k)); r.t = t; r.mod = 0; return r; }
static const vector<vector<Cons>>& SYS() { static vector<vector<Cons>> s = {{}, {con({0, 0, 0}, -1)}, {con({1, 0, 0}, 0), con({-1, 0, 0}, 2), con({0, 1, 0}, -1), con({0, -1, 0}, 3), con({0, 0, 1}, 4), con({0, 0, -1}, 5)}, {con({1, 0, 0}, -1), con({-1, 0, 0}, 4), con({0, 1, 0}, 1), con({0, -1, 0}, 2), con({0, 0, 1}, 0)}, {con({1, 0, 0}, -1, AP_CONS_EQ), con({0, 1, 0}, -2, AP_CONS_EQ), con({0, 0, 1}, -3, AP_CONS_EQ)}, {con({-1, 0, 0}, 3)}, {con({1, -1, 0}, 0), con({-1, 1, 0}, 2), con({1, 0, 0}, 0), con({0, 0, 1}, -7)}, {con({-1, -1, 0}, 4), con({1, 0, 0}, 1), con({0, 1, 0}, 0), con({0, 1, -1}, 0, AP_CONS_EQ)}}; return s; }
static A0* val(size_t i) { rst(); ap_lincons0_array_t a = mk_lincons_array(SYS()[i], true); A0* r = ap_abstract0_of_lincons_array(man, NI, NR, &a); ap_lincons0_array_clear(&a); return r; }
struct Val { A0* a; Val(size_t i) : a(val(i)) {} Val(A0* x) : a(x) {} ~Val() { if (a) ap_abstract0_free(man, a); } A0* copy() { return ap_abstract0_copy(man, a); } Val(const Val&) = delete; };
static const vector<Lin>& LX() { static vector<Lin> v; if (v.empty()) { v.push_back(con({1, 1, 0}, 3).e); v.push_back(con({0, 0, 2}, -1).e); v.push_back(con({0, -1, 1}, 0).e); Lin l = con({1, 0, 0}, 0).e; l.k = Itv(EQ(Q(-1)), EQ(Q(2))); v.push_back(l); v.push_back(con({0, 0, 0}, 5).e); } return v; }
static const vector<vector<Cons>>& CA() { static vector<vector<Cons>> v = {{con({1, 0, 0}, -1)}, {con({0, -1, 0}, 2), con({1, 0, 1}, -1)}, {con({1, -1, 0}, 0, AP_CONS_EQ)}, {}}; return v; }
static X::linexpr0 xlin(const Lin& l, bool sparse = true) { ap_linexpr0_t* e = mk_linexpr(l, sparse); X::linexpr0 r(e->discr, e->size); size_t i; ap_dim_t d; ap_coeff_t* c; r.get_cst() = *(X::coeff*)&e->cst; ap_linexpr0_ForeachLinterm(e, i, d, c) r[d] = *(X::coeff*)c; ap_linexpr0_free(e); return r; }
static X::lincons0_array xla(const vector<Cons>& v) { X::lincons0_array r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = X::lincons0((ap_constyp_t)v[i].t, xlin(v[i].e)); return r; }
static ap_texpr0_t* tree(int k) { switch (k) { case 0: return ap_texpr0_binop(AP_TEXPR_ADD, ap_texpr0_dim(0), ap_texpr0_binop(AP_TEXPR_MUL, ap_texpr0_dim(1), ap_texpr0_cst_scalar_int(2), AP_RTYPE_REAL, AP_RDIR_NEAREST), AP_RTYPE_REAL, AP_RDIR_NEAREST); case 1: return ap_texpr0_binop(AP_TEXPR_SUB, ap_texpr0_cst_interval_int(1, 4), ap_texpr0_dim(2), AP_RTYPE_REAL, AP_RDIR_NEAREST); case 2: return ap_texpr0_binop(AP_TEXPR_DIV, ap_texpr0_dim(0), ap_texpr0_cst_scalar_int(2), AP_RTYPE_INT, AP_RDIR_ZERO); case 3: return ap_texpr0_unop(AP_TEXPR_NEG, ap_texpr0_dim(1), AP_RTYPE_REAL, AP_RDIR_NEAREST); default: return ap_texpr0_unop(AP_TEXPR_SQRT, ap_texpr0_binop(AP_TEXPR_MUL, ap_texpr0_dim(0), ap_texpr0_dim(1), AP_RTYPE_REAL, AP_RDIR_NEAREST), AP_RTYPE_DOUBLE, AP_RDIR_UP); } }
static const int NT = 5;
static X::texpr0 xtree(int k) { using namespace apron; typedef X::texpr0::builder B; B d0 = B(X::dim(0)), d1 = B(X::dim(1)), d2 = B(X::dim(2)); switch (k) { case 0: return d0 + d1 * B(2); case 1: return B(1, 4) - d2; case 2: return div(d0, B(2), AP_RTYPE_INT, AP_RDIR_ZERO); case 3: return -d1; default: return sqrt(d0 * d1, AP_RTYPE_DOUBLE, AP_RDIR_UP); } }
static X::tcons0_array xta(int k, int t) { X::tcons0_array r(1); r[0] = X::tcons0((ap_constyp_t)t, xtree(k)); return r; }
static ap_tcons0_array_t cta(int k, int t) { ap_tcons0_array_t r = ap_tcons0_array_make(1); r.p[0] = ap_tcons0_make((ap_constyp_t)t, tree(k), NULL); return r; }
// ---- one operation: in place and three-operand form ----
static void op0(G& g, const string& nm, std::function<XA&(XA&, const XA&)> inp, std::function<XA&(XA&, const XA&, const XA&)> tri, std::function<A0*(A0*, A0*)> ref) {
  size_t n = SYS().size();
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!g.next([&] { return nm + " value " + std::to_string(i) + "," + std::to_string(j); })) continue;
    Val a(i), b(j), c((i + j + 3) % n); rst(); Val w(ref(a.a, b.a)); ap_exc_t we = man->result.exn; rst(); 
    auto wrap = [&](const char* form, int alias) { bool threw = false; XA x(*M, *(XA*)&a.a), y(*M, *(XA*)&b.a), d(*M, *(XA*)&c.a); XA* res = NULL; XA* dst = alias == 0 ? &x : alias == 1 ? &d : alias == 2 ? &x : &y; 
      try { if (alias == 0) res = &inp(x, y); else res = &tri(*dst, x, y); } catch (std::exception& e) { threw = true; }
      if (threw != (we != AP_EXC_NONE)) { g.fail("exn", nm + form + (threw ? ": throws" : ": does not throw") + ", the C function " + (we ? "raises" : "does not")); return; }
      if (threw) return;
      if (res != dst) g.fail("ref", nm + form + ": does not return its destination"); 
      if (!same(dst->get_ap_abstract0_t(), w.a)) g.fail("value", nm + form + ": " + ab(dst->get_ap_abstract0_t()) + " instead of " + ab(w.a));
      if (dst != &x && !same(x.get_ap_abstract0_t(), a.a)) g.fail("args", nm + form + ": changed its first argument");
      if (dst != &y && !same(y.get_ap_abstract0_t(), b.a)) g.fail("args", nm + form + ": changed its second argument"); };
    if (inp) wrap(" in place", 0); if (tri) { wrap(" to another", 1); wrap(" to the first", 2); wrap(" to the second", 3); } g.ok(std::hash<string>()(ab(w.a))); } }
static void q0(G& g, const string& nm, std::function<string(const XA&, const XA&)> f, std::function<string(A0*, A0*)> ref) {
  size_t n = SYS().size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!g.next([&] { return nm + " value " + std::to_string(i) + "," + std::to_string(j); })) continue;
    Val a(i), b(j); rst(); string w = ref(a.a, b.a); ap_exc_t we = man->result.exn; rst(); string r; bool threw = false; { XA x(*M, *(XA*)&a.a), y(*M, *(XA*)&b.a); try { r = f(x, y); } catch (std::exception& e) { threw = true; } }
    if (threw != (we != AP_EXC_NONE)) g.fail("exn", nm + (threw ? ": throws" : ": does not throw") + ", the C function " + (we ? "raises" : "does not")); else if (!threw && r != w) g.fail("value", nm + ": " + r + " instead of " + w); g.ok(std::hash<string>()(w)); } }
#define IN [=](XA& x, const XA& y) -> XA&
#define TRI [=](XA& d, const XA& x, const XA& y) -> XA&
#define REF [=](A0* a, A0* b) -> A0*
#define NOTRI std::function<XA&(XA&, const XA&, const XA&)>()
#define NOIN std::function<XA&(XA&, const XA&)>()
static ap_dimchange_t* dch(size_t i, size_t r, std::initializer_list<int> d) { ap_dimchange_t* c = ap_dimchange_alloc(i, r); size_t k = 0; for (int x : d) c->dim[k++] = x; return c; }
static ap_dimchange_t* DC(int k) { switch (k) { case 0: return dch(1, 0, {0}); case 1: return dch(0, 2, {1, 3}); default: return dch(1, 1, {1, 2}); } }
static ap_dimchange_t* DR(int k) { switch (k) { case 0: return dch(1, 0, {0}); case 1: return dch(0, 1, {2}); default: return dch(1, 1, {0, 1}); } }
static X::dimchange xdc(ap_dimchange_t* c) { X::dimchange r(c->intdim, c->realdim, c->dim); ap_dimchange_free(c); return r; }
template <class F> static A0* wl(const Lin& l, F f) { ap_linexpr0_t* e = mk_linexpr(l, true); A0* r = f(e); ap_linexpr0_free(e); return r; }
template <class F> static A0* wt(int k, F f) { ap_texpr0_t* e = tree(k); A0* r = f(e); ap_texpr0_free(e); return r; }
static X::interval_array boxof(int k) { X::interval_array r(N); for (int i = 0; i < N; i++) r[i].set(i - k, i + k + 1); if (k == 2) r[1] = X::top(); return r; }
static ap_interval_t** cbox(int k) { ap_interval_t** r = ap_interval_array_alloc(N); for (int i = 0; i < N; i++) ap_interval_set_int(r[i], i - k, i + k + 1); if (k == 2) ap_interval_set_top(r[1]); return r; }
static X::generator0_array xgen(int k) { X::generator0_array r(k ? 2 : 1); r[0] = X::generator0(k ? AP_GEN_LINE : AP_GEN_RAY, xlin(con({0, 1, 0}, 0).e)); if (k) r[1] = X::generator0(AP_GEN_RAY, xlin(con({0, 0, -1}, 0).e)); return r; }
static ap_generator0_array_t cgen(int k) { ap_generator0_array_t r = ap_generator0_array_make(k ? 2 : 1); r.p[0] = ap_generator0_make(k ? AP_GEN_LINE : AP_GEN_RAY, mk_linexpr(con({0, 1, 0}, 0).e, true)); if (k) r.p[1] = ap_generator0_make(AP_GEN_RAY, mk_linexpr(con({0, 0, -1}, 0).e, true)); return r; }
static string S(long n) { return std::to_string(n); }
struct MM : X::manager { MM(ap_manager_t* m) : X::manager(m) {} };
static void level0(Runner& R) {
  R.group("lattice0", [](G& g) {
    op0(g, "meet", IN { return x.meet(*M, y); }, TRI { return meet(*M, d, x, y); }, REF { return ap_abstract0_meet(man, false, a, b); });
    op0(g, "join", IN { return x.join(*M, y); }, TRI { return join(*M, d, x, y); }, REF { return ap_abstract0_join(man, false, a, b); });
    op0(g, "*=", IN { return x *= y; }, NOTRI, REF { return ap_abstract0_meet(man, false, a, b); });
    op0(g, "+=", IN { return x += y; }, NOTRI, REF { return ap_abstract0_join(man, false, a, b); });
    op0(g, "= value", IN { return x = y; }, NOTRI, REF { return ap_abstract0_copy(man, b); });
    op0(g, "set value", IN { return x.set(*M, y); }, NOTRI, REF { return ap_abstract0_copy(man, b); });
    op0(g, "= top", IN { return x = X::top(); }, NOTRI, REF { return ap_abstract0_top(man, NI, NR); });
    op0(g, "= bottom", IN { return x = X::bottom(); }, NOTRI, REF { return ap_abstract0_bottom(man, NI, NR); });
    op0(g, "set top", IN { return x.set(*M, X::top()); }, NOTRI, REF { return ap_abstract0_top(man, NI, NR); });
    op0(g, "set top 2,1", IN { return x.set(*M, X::top(), 2, 1); }, NOTRI, REF { return ap_abstract0_top(man, 2, 1); });
    op0(g, "set top 2", IN { return x.set(*M, X::top(), 2); }, NOTRI, REF { return ap_abstract0_top(man, 2, NR); });
    op0(g, "set bottom", IN { return x.set(*M, X::bottom()); }, NOTRI, REF { return ap_abstract0_bottom(man, NI, NR); });
    op0(g, "set bottom 2,1", IN { return x.set(*M, X::bottom(), 2, 1); }, NOTRI, REF { return ap_abstract0_bottom(man, 2, 1); });
    op0(g, "minimize", IN { return x.minimize(*M); }, NOTRI, REF { A0* r = ap_abstract0_copy(man, a); ap_abstract0_minimize(man, r); return r; });
    op0(g, "canonicalize", IN { return x.canonicalize(*M); }, NOTRI, REF { A0* r = ap_abstract0_copy(man, a); ap_abstract0_canonicalize(man, r); return r; });
    op0(g, "approximate", IN { return x.approximate(*M, 0); }, NOTRI, REF { A0* r = ap_abstract0_copy(man, a); ap_abstract0_approximate(man, r, 0); return r; });
    op0(g, "closure", IN { return x.closure(*M); }, TRI { return closure(*M, d, x); }, REF { return ap_abstract0_closure(man, false, a); });
  });
  R.group("widening0", [](G& g) { 
    op0(g, "widening of the join", NOIN, TRI { XA j(*M, NI, NR, X::top()); join(*M, j, x, y); return widening(*M, d, x, j); }, REF { Val j(ap_abstract0_join(man, false, a, b)); return ap_abstract0_widening(man, a, j.a); });
    for (auto& v : CA()) op0(g, "widening threshold", NOIN, TRI { XA j(*M, NI, NR, X::top()); join(*M, j, x, y); return widening(*M, d, x, j, xla(v)); }, REF { Val j(ap_abstract0_join(man, false, a, b)); ap_lincons0_array_t l = mk_lincons_array(v, true); A0* r = ap_abstract0_widening_threshold(man, a, j.a, &l); ap_lincons0_array_clear(&l); return r; }); });
  R.group("array0", [](G& g) { for (int form = 0; form < 2; form++) for (int k = 1; k <= 3; k++) for (int o = 0; o < 2; o++) op0(g, string(o ? "join" : "meet") + " of " + S(k) + (form ? " pointers" : " vector"), NOIN,
      TRI { XA t(*M, *(XA*)&x); const XA* p[3] = {&x, &y, &t}; std::vector<const XA*> v(p, p + k); return form ? (o ? join(*M, d, (size_t)k, p) : meet(*M, d, (size_t)k, p)) : (o ? join(*M, d, v) : meet(*M, d, v)); },
      REF { A0* p[3] = {a, b, a}; return o ? ap_abstract0_join_array(man, p, k) : ap_abstract0_meet_array(man, p, k); }); });
  R.group("cons0", [](G& g) { for (auto& v : CA()) { auto f = REF { ap_lincons0_array_t l = mk_lincons_array(v, true); A0* r = ap_abstract0_meet_lincons_array(man, false, a, &l); ap_lincons0_array_clear(&l); return r; };
      op0(g, "meet lincons", IN { return x.meet(*M, xla(v)); }, TRI { return meet(*M, d, x, xla(v)); }, f); op0(g, "*= lincons", IN { return x *= xla(v); }, NOTRI, f);
      auto h = REF { ap_lincons0_array_t l = mk_lincons_array(v, true); A0* r = ap_abstract0_of_lincons_array(man, NI, NR, &l); ap_lincons0_array_clear(&l); return r; };
      op0(g, "= lincons", IN { return x = xla(v); }, NOTRI, h); op0(g, "set lincons", IN { return x.set(*M, xla(v)); }, NOTRI, h); op0(g, "construct lincons", IN { XA t(*M, NI, NR, xla(v)); return x = t; }, NOTRI, h);
      op0(g, "set lincons 2,2", IN { return x.set(*M, xla(v), 2, 2); }, NOTRI, REF { ap_lincons0_array_t l = mk_lincons_array(v, true); A0* r = ap_abstract0_of_lincons_array(man, 2, 2, &l); ap_lincons0_array_clear(&l); return r; }); }
    for (int k = 0; k < NT; k++) for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP}) { auto f = REF { ap_tcons0_array_t l = cta(k, t); A0* r = ap_abstract0_meet_tcons_array(man, false, a, &l); ap_tcons0_array_clear(&l); return r; };
      op0(g, "meet tcons " + S(k) + CT[t], IN { return x.meet(*M, xta(k, t)); }, TRI { return meet(*M, d, x, xta(k, t)); }, f); op0(g, "*= tcons" + S(k) + CT[t], IN { return x *= xta(k, t); }, NOTRI, f);
      auto h = REF { ap_tcons0_array_t l = cta(k, t); A0* r = ap_abstract0_of_tcons_array(man, NI, NR, &l); ap_tcons0_array_clear(&l); return r; };
      op0(g, "= tcons" + S(k) + CT[t], IN { return x = xta(k, t); }, NOTRI, h); op0(g, "set tcons" + S(k) + CT[t], IN { return x.set(*M, xta(k, t)); }, NOTRI, h); op0(g, "construct tcons" + S(k) + CT[t], IN { XA u(*M, NI, NR, xta(k, t)); return x = u; }, NOTRI, h); }
    for (int k = 0; k < 3; k++) { auto h = REF { ap_interval_t** l = cbox(k); A0* r = ap_abstract0_of_box(man, NI, NR, l); ap_interval_array_free(l, N); return r; }; op0(g, "= box" + S(k), IN { return x = boxof(k); }, NOTRI, h); op0(g, "set box" + S(k), IN { return x.set(*M, boxof(k)); }, NOTRI, h); op0(g, "construct box" + S(k), IN { XA u(*M, NI, NR, boxof(k)); return x = u; }, NOTRI, h); }
    for (int k = 0; k < 2; k++) { auto h = REF { ap_generator0_array_t l = cgen(k); A0* r = ap_abstract0_add_ray_array(man, false, a, &l); ap_generator0_array_clear(&l); return r; }; op0(g, "add_rays" + S(k), IN { return x.add_rays(*M, xgen(k)); }, TRI { return add_rays(*M, d, x, xgen(k)); }, h); op0(g, "+= gens" + S(k), IN { return x += xgen(k); }, NOTRI, h); } });
  for (int sub = 0; sub < 2; sub++) R.group(sub ? "substitute0" : "assign0", [sub](G& g) {
#define AS(FN) (sub ? x.substitute FN : x.assign FN)
#define AT(FN) (sub ? substitute FN : assign FN)
    auto cl = [sub](A0* a, ap_dim_t* d, ap_linexpr0_t** e, size_t n, A0* dest) { return sub ? ap_abstract0_substitute_linexpr_array(man, false, a, d, e, n, dest) : ap_abstract0_assign_linexpr_array(man, false, a, d, e, n, dest); };
    auto ct = [sub](A0* a, ap_dim_t* d, ap_texpr0_t** e, size_t n, A0* dest) { return sub ? ap_abstract0_substitute_texpr_array(man, false, a, d, e, n, dest) : ap_abstract0_assign_texpr_array(man, false, a, d, e, n, dest); };
    for (int dm = 0; dm < N; dm++) for (size_t k = 0; k < LX().size(); k++) { Lin l = LX()[k]; op0(g, "x" + S(dm) + " := " + l.str(), IN { return AS((*M, dm, xlin(l))); }, TRI { return AT((*M, d, x, dm, xlin(l))); }, REF { return wl(l, [&](ap_linexpr0_t* e) { ap_dim_t q = dm; return cl(a, &q, &e, 1, NULL); }); });
      op0(g, "x" + S(dm) + " := " + l.str() + " within", IN { return AS((*M, dm, xlin(l), y)); }, TRI { return AT((*M, d, x, dm, xlin(l), y)); }, REF { return wl(l, [&](ap_linexpr0_t* e) { ap_dim_t q = dm; return cl(a, &q, &e, 1, b); }); }); }
    for (int dm = 0; dm < N; dm++) for (int k = 0; k < NT; k++) { op0(g, "x" + S(dm) + " := tree " + S(k), IN { return AS((*M, dm, xtree(k))); }, TRI { return AT((*M, d, x, dm, xtree(k))); }, REF { return wt(k, [&](ap_texpr0_t* e) { ap_dim_t q = dm; return ct(a, &q, &e, 1, NULL); }); });
      op0(g, "x" + S(dm) + " := tree " + S(k) + " within", IN { return AS((*M, dm, xtree(k), y)); }, TRI { return AT((*M, d, x, dm, xtree(k), y)); }, REF { return wt(k, [&](ap_texpr0_t* e) { ap_dim_t q = dm; return ct(a, &q, &e, 1, b); }); }); }
    for (int form = 0; form < 2; form++) for (int in = 0; in < 2; in++) for (size_t k = 0; k < LX().size(); k++) { Lin l = LX()[k], l2 = LX()[(k + 1) % LX().size()]; int kt = k; string nm = string("(x2,x0) := ") + l.str() + "," + l2.str() + (form ? " pointers" : " vectors") + (in ? " within" : "");
      op0(g, nm, IN { X::linexpr0 e = xlin(l), f = xlin(l2); ap_dim_t q[2] = {2, 0}; const X::linexpr0* p[2] = {&e, &f}; std::vector<ap_dim_t> vq(q, q + 2); std::vector<const X::linexpr0*> vp(p, p + 2); if (in) return form ? AS((*M, (size_t)2, q, p, y)) : AS((*M, vq, vp, y)); return form ? AS((*M, (size_t)2, q, p)) : AS((*M, vq, vp)); },
        TRI { X::linexpr0 e = xlin(l), f = xlin(l2); ap_dim_t q[2] = {2, 0}; const X::linexpr0* p[2] = {&e, &f}; std::vector<ap_dim_t> vq(q, q + 2); std::vector<const X::linexpr0*> vp(p, p + 2); if (in) return form ? AT((*M, d, x, (size_t)2, q, p, y)) : AT((*M, d, x, vq, vp, y)); return form ? AT((*M, d, x, (size_t)2, q, p)) : AT((*M, d, x, vq, vp)); },
        REF { ap_dim_t q[2] = {2, 0}; ap_linexpr0_t* p[2] = {mk_linexpr(l, true), mk_linexpr(l2, true)}; A0* r = cl(a, q, p, 2, in ? b : NULL); ap_linexpr0_free(p[0]); ap_linexpr0_free(p[1]); return r; });
      op0(g, nm + " trees", IN { X::texpr0 e = xtree(kt), f = xtree((kt + 1) % NT); ap_dim_t q[2] = {2, 0}; const X::texpr0* p[2] = {&e, &f}; std::vector<ap_dim_t> vq(q, q + 2); std::vector<const X::texpr0*> vp(p, p + 2); if (in) return form ? AS((*M, (size_t)2, q, p, y)) : AS((*M, vq, vp, y)); return form ? AS((*M, (size_t)2, q, p)) : AS((*M, vq, vp)); },
        TRI { X::texpr0 e = xtree(kt), f = xtree((kt + 1) % NT); ap_dim_t q[2] = {2, 0}; const X::texpr0* p[2] = {&e, &f}; std::vector<ap_dim_t> vq(q, q + 2); std::vector<const X::texpr0*> vp(p, p + 2); if (in) return form ? AT((*M, d, x, (size_t)2, q, p, y)) : AT((*M, d, x, vq, vp, y)); return form ? AT((*M, d, x, (size_t)2, q, p)) : AT((*M, d, x, vq, vp)); },
        REF { ap_dim_t q[2] = {2, 0}; ap_texpr0_t* p[2] = {tree(kt), tree((kt + 1) % NT)}; A0* r = ct(a, q, p, 2, in ? b : NULL); ap_texpr0_free(p[0]); ap_texpr0_free(p[1]); return r; }); }
    op0(g, "invalid dimension", IN { return AS((*M, 7, xlin(LX()[0]))); }, TRI { return AT((*M, d, x, 7, xlin(LX()[0]))); }, REF { return wl(LX()[0], [&](ap_linexpr0_t* e) { ap_dim_t q = 7; return cl(a, &q, &e, 1, NULL); }); }); });
  R.group("dims0", [](G& g) { for (int p = 0; p < 2; p++) { bool pr = p; for (int dm = 0; dm < N; dm++) op0(g, "forget x" + S(dm) + (p ? " project" : ""), IN { return x.forget(*M, (ap_dim_t)dm, pr); }, TRI { return forget(*M, d, x, (ap_dim_t)dm, pr); }, REF { ap_dim_t q = dm; return ap_abstract0_forget_array(man, false, a, &q, 1, pr); });
      op0(g, string("forget x0,x2 ptr") + (p ? " project" : ""), IN { ap_dim_t q[2] = {0, 2}; return x.forget(*M, (size_t)2, q, pr); }, TRI { ap_dim_t q[2] = {0, 2}; return forget(*M, d, x, (size_t)2, q, pr); }, REF { ap_dim_t q[2] = {0, 2}; return ap_abstract0_forget_array(man, false, a, q, 2, pr); });
      op0(g, string("forget x2,x1 vec") + (p ? " project" : ""), IN { return x.forget(*M, std::vector<ap_dim_t>({2, 1}), pr); }, TRI { return forget(*M, d, x, std::vector<ap_dim_t>({2, 1}), pr); }, REF { ap_dim_t q[2] = {2, 1}; return ap_abstract0_forget_array(man, false, a, q, 2, pr); });
      for (int k = 0; k < 3; k++) op0(g, "add_dimensions " + S(k) + (p ? " project" : ""), IN { return x.add_dimensions(*M, xdc(DC(k)), pr); }, TRI { return add_dimensions(*M, d, x, xdc(DC(k)), pr); }, REF { ap_dimchange_t* c = DC(k); A0* r = ap_abstract0_add_dimensions(man, false, a, c, pr); ap_dimchange_free(c); return r; }); }
    op0(g, "forget default", IN { return x.forget(*M, (ap_dim_t)1); }, TRI { return forget(*M, d, x, (ap_dim_t)1); }, REF { ap_dim_t q = 1; return ap_abstract0_forget_array(man, false, a, &q, 1, false); });
    op0(g, "add default", IN { return x.add_dimensions(*M, xdc(DC(0))); }, TRI { return add_dimensions(*M, d, x, xdc(DC(0))); }, REF { ap_dimchange_t* c = DC(0); A0* r = ap_abstract0_add_dimensions(man, false, a, c, false); ap_dimchange_free(c); return r; });
    for (int k = 0; k < 3; k++) op0(g, "remove_dimensions " + S(k), IN { return x.remove_dimensions(*M, xdc(DR(k))); }, TRI { return remove_dimensions(*M, d, x, xdc(DR(k))); }, REF { ap_dimchange_t* c = DR(k); A0* r = ap_abstract0_remove_dimensions(man, false, a, c); ap_dimchange_free(c); return r; });
    op0(g, "permute", IN { ap_dim_t q[3] = {0, 2, 1}; return x.permute_dimensions(*M, X::dimperm(3, q)); }, TRI { return permute_dimensions(*M, d, x, X::dimperm(std::vector<ap_dim_t>({0, 2, 1}))); }, REF { ap_dimperm_t p; ap_dimperm_init(&p, 3); p.dim[0] = 0; p.dim[1] = 2; p.dim[2] = 1; A0* r = ap_abstract0_permute_dimensions(man, false, a, &p); ap_dimperm_clear(&p); return r; });
    for (int dm = 0; dm < N; dm++) { for (size_t n = 0; n < 3; n++) op0(g, "expand x" + S(dm) + " " + S(n), IN { return x.expand(*M, dm, n); }, TRI { return expand(*M, d, x, dm, n); }, REF { return ap_abstract0_expand(man, false, a, dm, n); }); op0(g, "expand default x" + S(dm), IN { return x.expand(*M, dm); }, TRI { return expand(*M, d, x, dm); }, REF { return ap_abstract0_expand(man, false, a, dm, 1); }); }
    op0(g, "fold ptr", IN { ap_dim_t q[2] = {1, 2}; return x.fold(*M, (size_t)2, q); }, TRI { ap_dim_t q[2] = {1, 2}; return fold(*M, d, x, (size_t)2, q); }, REF { ap_dim_t q[2] = {1, 2}; return ap_abstract0_fold(man, false, a, q, 2); });
    op0(g, "fold vec", IN { return x.fold(*M, std::vector<ap_dim_t>({1, 2})); }, TRI { return fold(*M, d, x, std::vector<ap_dim_t>({1, 2})); }, REF { ap_dim_t q[2] = {1, 2}; return ap_abstract0_fold(man, false, a, q, 2); });
    if (D.name.compare(0, 3, "oct") == 0) op0(g, "serialize", IN { std::string* s = y.serialize(*M); size_t e = 0; XA& r = deserialize(*M, x, *s, &e); if (e != s->size()) r.set(*M, X::top(), 9, 9); delete s; return r; }, NOTRI, REF { return ap_abstract0_copy(man, b); }); });
  R.group("query0", [](G& g) {
#define Q0(NAME, CXX, C) q0(g, NAME, [=](const XA& x, const XA& y) -> string { (void)y; return CXX; }, [=](A0* a, A0* b) -> string { (void)b; return C; })
    Q0("is_bottom", S(x.is_bottom(*M)), S(ap_abstract0_is_bottom(man, a))); Q0("is_top", S(x.is_top(*M)), S(ap_abstract0_is_top(man, a))); Q0("is_eq", S(x.is_eq(*M, y)), S(ap_abstract0_is_eq(man, a, b))); Q0("is_leq", S(x.is_leq(*M, y)), S(ap_abstract0_is_leq(man, a, b)));
    Q0("==", S(x == y), S(ap_abstract0_is_eq(man, a, b))); Q0("!=", S(x != y), S(!ap_abstract0_is_eq(man, a, b))); Q0("<=", S(x <= y), S(ap_abstract0_is_leq(man, a, b))); Q0(">=", S(x >= y), S(ap_abstract0_is_leq(man, b, a)));
    Q0("<", S(x < y), S(ap_abstract0_is_leq(man, a, b) && !ap_abstract0_is_leq(man, b, a))); Q0(">", S(x > y), S(ap_abstract0_is_leq(man, b, a) && !ap_abstract0_is_leq(man, a, b)));
    if (D.name.compare(0, 3, "ppl")) Q0("size", S(x.size(*M)), S(ap_abstract0_size(man, a))); Q0("dimension", S(x.get_dimension(*M).intdim) + "," + S(x.get_dimension(*M).realdim), S(NI) + "," + S(NR)); Q0("manager", S(x.get_manager().get_ap_manager_t() == man), "1");
    for (int dm = 0; dm < N; dm++) { Q0("bound dim", iv(x.bound(*M, (ap_dim_t)dm)), ([&] { ap_interval_t* i = ap_abstract0_bound_dimension(man, a, dm); string s = iv(i); ap_interval_free(i); return s; })()); Q0("unconstrained", S(x.is_dimension_unconstrained(*M, dm)), S(ap_abstract0_is_dimension_unconstrained(man, a, dm)));
      for (int lo = -1; lo < 3; lo += 2) for (int hi = 1; hi < 5; hi += 3) Q0("sat interval", S(x.sat(*M, dm, X::interval(lo, hi))), ([&] { ap_interval_t* i = ap_interval_alloc(); ap_interval_set_int(i, lo, hi); bool s = ap_abstract0_sat_interval(man, a, dm, i); ap_interval_free(i); return S(s); })()); }
    for (auto& l : LX()) Q0("bound lin", iv(x.bound(*M, xlin(l))), ([&] { ap_linexpr0_t* e = mk_linexpr(l, true); ap_interval_t* i = ap_abstract0_bound_linexpr(man, a, e); string s = iv(i); ap_interval_free(i); ap_linexpr0_free(e); return s; })());
    for (int k = 0; k < NT; k++) { Q0("bound tree", iv(x.bound(*M, xtree(k))), ([&] { ap_texpr0_t* e = tree(k); ap_interval_t* i = ap_abstract0_bound_texpr(man, a, e); string s = iv(i); ap_interval_free(i); ap_texpr0_free(e); return s; })());
      for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP}) Q0("sat tcons", S(x.sat(*M, X::tcons0((ap_constyp_t)t, xtree(k)))), ([&] { ap_tcons0_array_t c = cta(k, t); bool s = ap_abstract0_sat_tcons(man, a, &c.p[0]); ap_tcons0_array_clear(&c); return S(s); })()); }
    for (auto& v : CA()) for (auto& c : v) Q0("sat lincons", S(x.sat(*M, X::lincons0((ap_constyp_t)c.t, xlin(c.e)))), ([&] { ap_lincons0_t l = mk_lincons(c, true); bool s = ap_abstract0_sat_lincons(man, a, &l); ap_lincons0_clear(&l); return S(s); })());
    Q0("to_box", ([&] { X::interval_array b = x.to_box(*M); string s; for (size_t i = 0; i < b.size(); i++) s += iv(b[i]); return s; })(), ([&] { ap_interval_t** p = ap_abstract0_to_box(man, a); string s; if (p) { for (int i = 0; i < N; i++) s += iv(p[i]); ap_interval_array_free(p, N); } return s; })());
    Q0("to_lincons", la(x.to_lincons_array(*M).get_ap_lincons0_array_t()), ([&] { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(man, a); string s = la(&l); ap_lincons0_array_clear(&l); return s; })());
    Q0("to_tcons", ta(x.to_tcons_array(*M).get_ap_tcons0_array_t()), ([&] { ap_tcons0_array_t l = ap_abstract0_to_tcons_array(man, a); string s = ta(&l); ap_tcons0_array_clear(&l); return s; })());
    Q0("to_generators", ga(x.to_generator_array(*M).get_ap_generator0_array_t()), ([&] { ap_generator0_array_t l = ap_abstract0_to_generator_array(man, a); string s = ga(&l); ap_generator0_array_clear(&l); return s; })());
    Q0("print", slurp([&](FILE* o) { x.print(*M, NULL, o); }), slurp([&](FILE* o) { ap_abstract0_fprint(o, man, a, NULL); }));
    Q0("copy", ([&] { XA t(x); XA u(*M, y); u = t; return S(t == x && u == x); })(), "1");
  }); }
#include "mc_cxx1.hh"
#include "mc_cxx2.hh"
int main(int argc, char** argv) { Runner R(argc, argv); if (!ap_fpu_init()) return 3; R.dom = R.opt["dom"]; string d = R.dom == "values" ? "boxMPQ" : R.dom; D = open_dom(d); D.name = d; man = D.man; M = new MM(ap_manager_copy(man)); if (R.dom == "values") values(R); else { level0(R); level1(R); } return R.run(); }
