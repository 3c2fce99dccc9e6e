// Level 1: every operation on named values against the same operation at level 0 with positions computed from the names (C20).
#include "env.hh"
#include "dom.hh"
#include "flat.hh"
extern "C" {
#include "ap_linearize.h"
}
using flat::G; using flat::Runner;
static Dom D; static ap_manager_t* man; static vector<Env> EV; static vector<ap_environment_t*> POOL; static int NK = 5;
static ap_environment_t* pool(const Env& e) { for (size_t i = 0; i < EV.size(); i++) if (EV[i] == e) return POOL[i]; abort(); }
typedef ap_abstract0_t A0; typedef ap_abstract1_t A1;
// ---- expressions by name ----
struct NE { std::map<string, Q> c; Q k; bool sparse = true; Q w; };   // sum c*name + [k,k+w]
static string str(const NE& e) { string s; for (auto& x : e.c) s += qs(x.second) + x.first + "+"; return s + qs(e.k) + (e.w != 0 ? "~" : "") + (e.sparse ? "s" : "d"); }
static ap_linexpr0_t* lin0(const NE& e, const Env& m) { auto l = lay(m); Lin x; x.c.assign(l.size(), Itv(Q(0))); for (size_t i = 0; i < l.size(); i++) if (e.c.count(l[i])) x.c[i] = Itv(e.c.at(l[i])); x.k = Itv(EQ(e.k), EQ(Q(e.k + e.w))); return mk_linexpr(x, e.sparse); }
static ap_linexpr1_t lin1(const NE& e, const Env& m) { ap_linexpr1_t r; r.linexpr0 = lin0(e, m); r.env = ap_environment_copy(pool(m)); return r; }
static const std::map<string, int> CO = {{"a", 1}, {"a1", -1}, {"ab", 2}, {"b", 1}};
static vector<NE> exprs(const Env& m) { vector<NE> r; auto l = lay(m); NE e; for (auto& x : l) e.c[x] = CO.at(x); e.k = 3; r.push_back(e); if (l.size()) { NE f; f.c[l[0]] = 1; f.k = -1; f.sparse = false; r.push_back(f); if (l.size() > 1) { NE h; h.c[l.back()] = -1; h.c[l[0]] = 1; h.k = 2; h.w = 1; h.sparse = l.size() % 2; r.push_back(h); } } if (l.size() < 2) { NE k; k.k = 5; k.sparse = l.size(); r.push_back(k); } return r; }
// trees by name: built at level 1 with the level-1 constructors, at level 0 with positions
struct TB { bool one; const Env* m; ap_environment_t* env; };
static void* tvar(TB& b, const string& n) { if (b.one) { Vars v({n}); return ap_texpr1_var(b.env, v.p[0]); } auto l = lay(*b.m); return ap_texpr0_dim(std::find(l.begin(), l.end(), n) - l.begin()); }
static void* tcst(TB& b, long lo, long hi) { return b.one ? (void*)(lo == hi ? ap_texpr1_cst_scalar_int(b.env, lo) : ap_texpr1_cst_interval_int(b.env, lo, hi)) : (void*)(lo == hi ? ap_texpr0_cst_scalar_int(lo) : ap_texpr0_cst_interval_int(lo, hi)); }
static void* tbin(TB& b, ap_texpr_op_t op, void* x, void* y, ap_texpr_rtype_t t = AP_RTYPE_REAL) { return b.one ? (void*)ap_texpr1_binop(op, (ap_texpr1_t*)x, (ap_texpr1_t*)y, t, AP_RDIR_RND) : (void*)ap_texpr0_binop(op, (ap_texpr0_t*)x, (ap_texpr0_t*)y, t, AP_RDIR_RND); }
static void* tun(TB& b, ap_texpr_op_t op, void* x, ap_texpr_rtype_t t = AP_RTYPE_REAL) { return b.one ? (void*)ap_texpr1_unop(op, (ap_texpr1_t*)x, t, AP_RDIR_RND) : (void*)ap_texpr0_unop(op, (ap_texpr0_t*)x, t, AP_RDIR_RND); }
static const int NT = 4;
static void* tree(TB b, const Env& src, int k) { auto l = lay(src); if (l.empty()) return tcst(b, 2, k ? 3 : 2); 
  if (k == 0) { void* r = tcst(b, 3, 3); for (auto& x : l) { void* t = tvar(b, x); int c = CO.at(x); if (c != 1) t = tbin(b, AP_TEXPR_MUL, tcst(b, c, c), t); r = tbin(b, AP_TEXPR_ADD, r, t); } return r; }
  if (k == 1) return tbin(b, AP_TEXPR_ADD, tbin(b, AP_TEXPR_MUL, tvar(b, l[0]), tvar(b, l.back())), tcst(b, 0, 1));
  if (k == 2) return tbin(b, AP_TEXPR_SUB, tun(b, AP_TEXPR_NEG, tvar(b, l.back())), tbin(b, AP_TEXPR_DIV, tvar(b, l[0]), tcst(b, 2, 2), AP_RTYPE_INT));
  return tbin(b, AP_TEXPR_SUB, tvar(b, l[l.size() / 2]), tcst(b, 1, 4)); }
static ap_texpr0_t* tr0(const Env& src, int k, const Env& m) { TB b = {false, &m, NULL}; return (ap_texpr0_t*)tree(b, src, k); }
static ap_texpr1_t* tr1(const Env& src, int k) { TB b = {true, &src, pool(src)}; return (ap_texpr1_t*)tree(b, src, k); }
// ---- values by name ----
static const std::map<string, std::pair<int, int>> BX = {{"a", {1, 2}}, {"a1", {3, 5}}, {"ab", {6, 9}}, {"b", {10, 14}}};
static A0* val0(const Env& m, int kind) { auto l = lay(m); size_t n = l.size(); vector<Cons> v; auto pos = [&](const string& x) { return std::find(l.begin(), l.end(), x) - l.begin(); };
  auto add = [&](vector<std::pair<string, int>> t, long k) { Cons c; c.t = AP_CONS_SUPEQ; c.mod = 0; c.e.c.assign(n, Itv(Q(0))); for (auto& x : t) c.e.c[pos(x.first)] = Itv(Q(x.second)); c.e.k = Itv(Q(k)); v.push_back(c); };
  if (kind == 1) return ap_abstract0_bottom(man, nint(m), n - nint(m));
  if (kind == 2) for (auto& x : m) { add({{x.first, 1}}, -BX.at(x.first).first); add({{x.first, -1}}, BX.at(x.first).second); }
  if (kind == 3) { string p; for (auto& x : m) { if (p.size()) { add({{x.first, 1}, {p, -1}}, -2); add({{x.first, -1}, {p, 1}}, 5); } else add({{x.first, 1}}, -1); p = x.first; } }
  if (kind == 4) for (auto& x : m) { if (x.first == "a" || x.first == "ab") add({{x.first, 1}}, -BX.at(x.first).first); if (x.first == "b") add({{x.first, -1}}, 20); if (x.first == "a" && m.count("ab")) add({{"ab", -1}, {"a", -1}}, 30); }
  ap_lincons0_array_t a = mk_lincons_array(v, true); A0* r = ap_abstract0_of_lincons_array(man, nint(m), n - nint(m), &a); ap_lincons0_array_clear(&a); return r; }
static A1 val1(const Env& m, int kind) { A1 a; a.abstract0 = val0(m, kind); a.env = ap_environment_copy(pool(m)); return a; }
// ---- position arithmetic for the oracle ----
static vector<string> minus(const vector<string>& a, const vector<string>& r) { vector<string> o; for (auto& x : a) if (std::find(r.begin(), r.end(), x) == r.end()) o.push_back(x); return o; }
static ap_dimchange_t* addch(const Env& a, const Env& b) { auto lb = lay(b); vector<ap_dim_t> p; size_t seen = 0, ni = 0; for (auto& x : lb) if (a.count(x)) seen++; else { p.push_back(seen); ni += !b.at(x); } ap_dimchange_t* d = ap_dimchange_alloc(ni, p.size() - ni); for (size_t i = 0; i < p.size(); i++) d->dim[i] = p[i]; return d; }
static A0* embed(A0* x, const Env& a, const Env& b, bool project = false) { if (a == b) return x; ap_dimchange_t* d = addch(a, b); A0* r = ap_abstract0_add_dimensions(man, true, x, d, project); ap_dimchange_free(d); return r; }
static A0* drop(A0* x, const Env& a, const Env& b) { if (a == b) return x; ap_dimchange_t* d = addch(b, a); auto la = lay(a); size_t k = 0; for (size_t i = 0; i < la.size(); i++) if (!b.count(la[i])) d->dim[k++] = i; A0* r = ap_abstract0_remove_dimensions(man, true, x, d); ap_dimchange_free(d); return r; }
static A0* perm(A0* x, const vector<string>& from, const vector<string>& to) { ap_dimperm_t p; ap_dimperm_init(&p, from.size()); for (size_t i = 0; i < from.size(); i++) p.dim[i] = std::find(to.begin(), to.end(), from[i]) - to.begin(); A0* r = ap_abstract0_permute_dimensions(man, true, x, &p); ap_dimperm_clear(&p); return r; }
static size_t at(const Env& m, const string& x) { auto l = lay(m); return std::find(l.begin(), l.end(), x) - l.begin(); }
static ap_exc_t exc() { return man->result.exn; }
static void rst() { man->result.exn = AP_EXC_NONE; man->result.flag_exact = man->result.flag_best = true; if (man->result.exclog) { ap_exclog_free(man->result.exclog); man->result.exclog = NULL; } }
static vector<size_t> CNT; static void snap() { CNT.clear(); for (auto* e : POOL) CNT.push_back(e->count); }
static void counts(G& g, const string& what) { for (size_t i = 0; i < POOL.size(); i++) if (POOL[i]->count != CNT[i]) { g.fail("count", what + ": reference count of " + es(EV[i]) + " is off by " + std::to_string((long)POOL[i]->count - (long)CNT[i])); POOL[i]->count = CNT[i]; } }
static string a0s(A0* a) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); ap_abstract0_fprint(o, man, a, NULL); fclose(o); string s = p; free(p); for (auto& c : s) if (c == '\n') c = ' '; return s; }
// one operation: f(destructive, argument) against oracle(copy of the level-0 argument); no oracle: an invalid call
static void op(G& g, const string& what, const Env& m, int kind, const Env& exp, std::function<A1(bool, A1*)> f, std::function<A0*(A0*)> oracle, bool hasdes = true) {
  A1 a = val1(m, kind); snap(); A0* want = NULL; ap_exc_t we = AP_EXC_INVALID_ARGUMENT; if (oracle) { rst(); want = oracle(ap_abstract0_copy(man, a.abstract0)); we = exc(); }
  for (int des = 0; des <= (hasdes ? 1 : 0); des++) { A1 x; x.abstract0 = ap_abstract0_copy(man, a.abstract0); x.env = ap_environment_copy(a.env); A1 in = x; rst(); A1 r = f(des, &x); ap_exc_t e = exc(); rst(); string w = what + (des ? " (destructive)" : "");
    if (e != we) g.fail("exn", w + ": exception " + std::to_string(e) + " expected " + std::to_string(we));
    if (!r.abstract0 || !same_env(r.env, exp)) { g.fail("env", w + ": wrong environment, expected " + es(exp)); }
    else { ap_dimension_t d = ap_abstract0_dimension(man, r.abstract0); if (d.intdim != nint(exp) || d.realdim != exp.size() - nint(exp)) g.fail("dim", w + ": wrong dimension"); else if (want) { if (!ap_abstract0_is_eq(man, r.abstract0, want)) g.fail("value", w + ": " + a0s(r.abstract0) + " expected " + a0s(want)); } else if (exp == m) { if (!ap_abstract0_is_leq(man, a.abstract0, r.abstract0)) g.fail("value", w + ": unsound result of an invalid call " + a0s(r.abstract0)); } else if (A0* t = val0(exp, 0)) { if (!ap_abstract0_is_leq(man, t, r.abstract0)) g.fail("value", w + ": result of an invalid call is not top"); ap_abstract0_free(man, t); } }
    if (!des) { if (x.abstract0 != in.abstract0 || x.env != in.env) g.fail("args", w + ": argument replaced"); else { if (!same_env(x.env, m) || !ap_abstract0_is_eq(man, x.abstract0, a.abstract0)) g.fail("args", w + ": argument changed"); ap_abstract1_clear(man, &x); } }
    ap_abstract1_clear(man, &r); counts(g, w); }
  if (want) ap_abstract0_free(man, want); ap_abstract1_clear(man, &a); g.ok(we); }
static string itvs(ap_interval_t* i) { if (!i) return "null"; string s = interval_q(i).str(); ap_interval_free(i); return s; }
static string arrs(ap_lincons0_array_t* a) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); ap_lincons0_array_fprint(o, a, NULL); fclose(o); string s = p; free(p); return s; }
static string arrs(ap_tcons0_array_t* a) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); ap_tcons0_array_fprint(o, a, NULL); fclose(o); string s = p; free(p); return s; }
static string arrs(ap_generator0_array_t* a) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); ap_generator0_array_fprint(o, a, NULL); fclose(o); string s = p; free(p); return s; }
// a query: the printed answer must be the one at level 0
static void query(G& g, const string& what, const Env& m, int kind, std::function<string(A1*)> f, std::function<string(A0*)> oracle, const string& inval = "") {
  A1 a = val1(m, kind); snap(); A0* b = ap_abstract0_copy(man, a.abstract0); string w; ap_exc_t we = AP_EXC_INVALID_ARGUMENT; bool fe = false, fb = false; rst(); if (oracle) { w = oracle(b); we = exc(); fe = man->result.flag_exact; fb = man->result.flag_best; } else w = inval; ap_abstract0_free(man, b);
  b = a.abstract0; ap_environment_t* e0 = a.env; rst(); string r = f(&a); if (exc() != we) g.fail("exn", what + ": exception " + std::to_string(exc()) + " expected " + std::to_string(we)); if (oracle && (man->result.flag_exact != fe || man->result.flag_best != fb)) g.fail("flags", what); if (!oracle && man->result.flag_exact) g.fail("flags", what + ": exact after an invalid call"); rst();
  if (r != w) g.fail("value", what + ": " + r + " expected " + w); if (a.abstract0 != b || a.env != e0) g.fail("args", what + ": argument replaced"); counts(g, what); ap_abstract1_clear(man, &a); g.ok(we); }
static NE first(const Env& m, long k) { NE e; auto l = lay(m); if (l.size()) e.c[l[0]] = 1; e.k = k; return e; }
static vector<vector<string>> seqs(const vector<string>& a, int len) { vector<vector<string>> r = {{}}, cur = {{}}; for (int k = 0; k < len; k++) { vector<vector<string>> nx; for (auto& v : cur) for (auto& x : a) { auto w = v; w.push_back(x); nx.push_back(w); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
static bool distinct(const vector<string>& v) { return std::set<string>(v.begin(), v.end()).size() == v.size(); }
int cont(Runner& R);
int main(int argc, char** argv) {
  Runner R(argc, argv); int T = R.tier, N = T ? 4 : 3; if (R.opt["dom"].empty()) R.opt["dom"] = "boxMPQ"; R.dom = R.opt["dom"]; EV = envs(N); for (auto& e : EV) POOL.push_back(mk(e)); if (R.dom == "cont") return cont(R);
  D = open_dom(R.dom); man = D.man; int pw = T ? 1 : 3; size_t M = EV.size(); (void)pw;
  for (size_t q = 0; q < M; q++) {
    const Env& m = EV[q]; string en = es(m);
    R.group("expr " + en, [=](G& g) { for (int kind = 0; kind < NK; kind++) for (auto& s : EV) { bool ok = sub(s, m); if (!ok && kind > 2) continue; auto ex = exprs(s); auto lm = lay(m); vector<string> vars = lm; vars.push_back("zz");
        for (size_t k = 0; k < ex.size(); k++) { NE e = ex[k]; if (!g.next([&] { return std::to_string(kind) + " lin " + es(s) + str(e); })) continue; ap_linexpr1_t l1 = lin1(e, s); ap_linexpr0_t* l0 = lin0(e, m);
          query(g, "bound_linexpr", m, kind, [&](A1* a) { return itvs(ap_abstract1_bound_linexpr(man, a, &l1)); }, ok ? std::function<string(A0*)>([&](A0* a) { return itvs(ap_abstract0_bound_linexpr(man, a, l0)); }) : nullptr, "[-oo,+oo]");
          for (int ty = 0; ty < 5; ty++) { ap_scalar_t* md = ty == AP_CONS_EQMOD ? ap_scalar_alloc_set_double(3) : NULL; ap_lincons1_t c1 = ap_lincons1_make((ap_constyp_t)ty, &l1, md); ap_lincons0_t c0 = ap_lincons0_make((ap_constyp_t)ty, l0, md);
            query(g, "sat_lincons", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_sat_lincons(man, a, &c1)); }, ok ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_sat_lincons(man, a, &c0)); }) : nullptr, "0");
            ap_lincons1_array_t ar; ar.env = ap_environment_copy(l1.env); ar.lincons0_array = ap_lincons0_array_make(2); ar.lincons0_array.p[0] = ap_lincons0_copy(&c1.lincons0); NE h = first(s, -4); ar.lincons0_array.p[1] = ap_lincons0_make(AP_CONS_SUPEQ, lin0(h, s), NULL); ap_lincons0_array_t a0 = ap_lincons0_array_make(2); a0.p[0] = ap_lincons0_copy(&c0); a0.p[1] = ap_lincons0_make(AP_CONS_SUPEQ, lin0(h, m), NULL); string before = arrs(&ar.lincons0_array);
            op(g, "meet_lincons_array", m, kind, m, [&](bool d, A1* a) { return ap_abstract1_meet_lincons_array(man, d, a, &ar); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_meet_lincons_array(man, true, a, &a0); }) : nullptr);
            if (kind == 0) op(g, "of_lincons_array", m, kind, m, [&](bool, A1* a) { return ap_abstract1_of_lincons_array(man, a->env, &ar); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_meet_lincons_array(man, true, a, &a0); }) : nullptr, false);
            if (ty == 0) for (int k2 = 0; k2 < 2; k2++) { op(g, "widening_threshold", m, kind, m, [&](bool, A1* a) { A1 b = val1(m, k2 ? 0 : kind); ap_lincons1_array_t w; w.env = ar.env; w.lincons0_array = ap_lincons0_array_make(2); for (int i = 0; i < 2; i++) w.lincons0_array.p[i] = ap_lincons0_copy(&ar.lincons0_array.p[i]); /* the order of thresholds may change */ A1 r = ap_abstract1_widening_threshold(man, a, &b, &w); ap_lincons0_array_clear(&w.lincons0_array); ap_abstract1_clear(man, &b); return r; }, ok ? std::function<A0*(A0*)>([&](A0* a) { A0* b = val0(m, k2 ? 0 : kind); A0* r = ap_abstract0_widening_threshold(man, a, b, &a0); ap_abstract0_free(man, a); ap_abstract0_free(man, b); return r; }) : nullptr, false); }
            if (before != arrs(&ar.lincons0_array)) g.fail("args", "constraints changed from " + before); if (ty != AP_CONS_EQMOD) { ap_tcons1_t t1 = ap_tcons1_from_lincons1(&c1); ap_tcons0_t t0 = ap_tcons0_from_lincons0(&c0); query(g, "sat_tcons (linear)", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_sat_tcons(man, a, &t1)); }, ok ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_sat_tcons(man, a, &t0)); }) : nullptr, "0"); ap_tcons1_clear(&t1); ap_tcons0_clear(&t0); }
            ap_lincons1_array_clear(&ar); ap_lincons0_array_clear(&a0); if (md) ap_scalar_free(md); }
          for (int rt = 0; rt < 2; rt++) { ap_generator1_array_t ga; ga.env = ap_environment_copy(l1.env); ga.generator0_array = ap_generator0_array_make(1); ga.generator0_array.p[0] = ap_generator0_make(rt ? AP_GEN_RAY : AP_GEN_LINE, ap_linexpr0_copy(l1.linexpr0)); ap_generator0_array_t g0 = ap_generator0_array_make(1); g0.p[0] = ap_generator0_make(rt ? AP_GEN_RAY : AP_GEN_LINE, ap_linexpr0_copy(l0)); if (e.w == 0) op(g, "add_ray_array", m, kind, m, [&](bool d, A1* a) { return ap_abstract1_add_ray_array(man, d, a, &ga); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_add_ray_array(man, true, a, &g0); }) : nullptr); ap_generator1_array_clear(&ga); ap_generator0_array_clear(&g0); }
          if (kind != 1) { query(g, "quasilinear_of_intlinear", m, kind, [&](A1* a) { ap_linexpr1_t r = ap_abstract1_quasilinear_of_intlinear(man, a, &l1, AP_SCALAR_MPQ); if (!same_env(r.env, m)) g.fail("env", "quasilinear_of_intlinear"); string s = read_linexpr(r.linexpr0, m.size()).str(); ap_linexpr1_clear(&r); man->result.flag_exact = man->result.flag_best = ok; return s; }, ok ? std::function<string(A0*)>([&](A0* a) { bool ex; ap_linexpr0_t* r = ap_quasilinearize_linexpr0(man, a, l0, &ex, AP_SCALAR_MPQ); string s = read_linexpr(r, m.size()).str(); if (r != l0) ap_linexpr0_free(r); man->result.flag_exact = man->result.flag_best = true; return s; }) : nullptr, "[-oo,+oo]"); }
          for (auto& v : vars) for (int dst = 0; dst < (k || T ? 1 : 3); dst++) for (int sb = 0; sb < 2; sb++) { bool good = ok && v != "zz" && dst < 2; Vars vn({v}); A1 de = dst ? val1(dst == 2 ? EV[(q + 1) % M] : m, 3) : A1(); ap_dim_t dm = at(m, v);
            auto F = [&](bool d, A1* a) { return sb ? ap_abstract1_substitute_linexpr(man, d, a, vn.p[0], &l1, dst ? &de : NULL) : ap_abstract1_assign_linexpr(man, d, a, vn.p[0], &l1, dst ? &de : NULL); };
            op(g, string(sb ? "substitute" : "assign") + "_linexpr " + v + " dest " + std::to_string(dst), m, kind, m, F, good ? std::function<A0*(A0*)>([&](A0* a) { return sb ? ap_abstract0_substitute_linexpr(man, true, a, dm, l0, dst ? de.abstract0 : NULL) : ap_abstract0_assign_linexpr(man, true, a, dm, l0, dst ? de.abstract0 : NULL); }) : nullptr); if (dst) ap_abstract1_clear(man, &de); }
          { ap_linexpr0_t* t = lin0(e, s); if (!ap_linexpr0_equal(t, l1.linexpr0) || !same_env(l1.env, s)) g.fail("args", "expression changed"); ap_linexpr0_free(t); } ap_linexpr1_clear(&l1); ap_linexpr0_free(l0); }
        for (int k = 0; k < NT; k++) { if (!g.next([&] { return std::to_string(kind) + " tree " + es(s) + std::to_string(k); })) continue; ap_texpr1_t* t1 = tr1(s, k); ap_texpr0_t* t0 = tr0(s, k, ok ? m : s); if (!t1) { g.fail("null", "tree constructor refused"); continue; }
          query(g, "bound_texpr", m, kind, [&](A1* a) { return itvs(ap_abstract1_bound_texpr(man, a, t1)); }, ok ? std::function<string(A0*)>([&](A0* a) { return itvs(ap_abstract0_bound_texpr(man, a, t0)); }) : nullptr, "[-oo,+oo]");
          for (int ty = 0; ty < 3; ty++) { ap_tcons1_t c1; c1.tcons0 = ap_tcons0_make((ap_constyp_t)ty, t1->texpr0, NULL); c1.env = t1->env; ap_tcons0_t c0 = ap_tcons0_make((ap_constyp_t)ty, t0, NULL);
            query(g, "sat_tcons", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_sat_tcons(man, a, &c1)); }, ok ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_sat_tcons(man, a, &c0)); }) : nullptr, "0");
            ap_tcons1_array_t ar; ar.env = ap_environment_copy(t1->env); ar.tcons0_array = ap_tcons0_array_make(1); ar.tcons0_array.p[0] = ap_tcons0_copy(&c1.tcons0); ap_tcons0_array_t a0 = ap_tcons0_array_make(1); a0.p[0] = ap_tcons0_copy(&c0);
            op(g, "meet_tcons_array", m, kind, m, [&](bool d, A1* a) { return ap_abstract1_meet_tcons_array(man, d, a, &ar); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_meet_tcons_array(man, true, a, &a0); }) : nullptr);
            if (kind == 0) op(g, "of_tcons_array", m, kind, m, [&](bool, A1* a) { return ap_abstract1_of_tcons_array(man, a->env, &ar); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_meet_tcons_array(man, true, a, &a0); }) : nullptr, false);
            ap_tcons1_array_clear(&ar); ap_tcons0_array_clear(&a0); }
          if (kind != 1) for (int ql = 0; ql < 2; ql++) query(g, "intlinear_of_tree", m, kind, [&](A1* a) { ap_linexpr1_t r = ap_abstract1_intlinear_of_tree(man, a, t1, AP_SCALAR_MPQ, ql); if (!same_env(r.env, m)) g.fail("env", "intlinear_of_tree"); string s = read_linexpr(r.linexpr0, m.size()).str(); ap_linexpr1_clear(&r); man->result.flag_exact = man->result.flag_best = ok; return s; }, ok ? std::function<string(A0*)>([&](A0* a) { bool ex; ap_linexpr0_t* r = ap_intlinearize_texpr0(man, a, t0, &ex, AP_SCALAR_MPQ, ql); string s = read_linexpr(r, m.size()).str(); ap_linexpr0_free(r); man->result.flag_exact = man->result.flag_best = true; return s; }) : nullptr, "[-oo,+oo]");
          for (auto& v : vars) for (int dst = 0; dst < (k || T ? 1 : 3); dst++) for (int sb = 0; sb < 2; sb++) { bool good = ok && v != "zz" && dst < 2; Vars vn({v}); A1 de = dst ? val1(dst == 2 ? EV[(q + 1) % M] : m, 3) : A1(); ap_dim_t dm = at(m, v);
            auto F = [&](bool d, A1* a) { return sb ? ap_abstract1_substitute_texpr(man, d, a, vn.p[0], t1, dst ? &de : NULL) : ap_abstract1_assign_texpr(man, d, a, vn.p[0], t1, dst ? &de : NULL); };
            op(g, string(sb ? "substitute" : "assign") + "_texpr " + v + " dest " + std::to_string(dst), m, kind, m, F, good ? std::function<A0*(A0*)>([&](A0* a) { return sb ? ap_abstract0_substitute_texpr(man, true, a, dm, t0, dst ? de.abstract0 : NULL) : ap_abstract0_assign_texpr(man, true, a, dm, t0, dst ? de.abstract0 : NULL); }) : nullptr); if (dst) ap_abstract1_clear(man, &de); }
          { ap_texpr1_t* t = tr1(s, k); if (!ap_texpr1_equal(t, t1)) g.fail("args", "tree changed"); ap_texpr1_free(t); } ap_texpr1_free(t1); ap_texpr0_free(t0); } } });
    R.group("par " + en, [=](G& g) { auto lm = lay(m); vector<string> al = lm; al.push_back("zz"); for (int kind = 0; kind < NK; kind++) for (auto& vs : seqs(al, 2)) for (size_t sh = 0; sh < 4; sh++) for (int form = 0; form < 4; form++) for (int dst = 0; dst < 2; dst++) { if (!distinct(vs)) continue; // sh: which sub-environments the expressions are over
              if (!g.next([&] { return std::to_string(kind) + " " + ns(vs) + std::to_string(sh) + std::to_string(form) + std::to_string(dst); })) continue; vector<Env> se; bool ok = true; for (size_t i = 0; i < vs.size(); i++) { Env s = m; if (sh == 1 && i == 0 && lm.size()) s.erase(lm[0]); if (sh == 2 && i == 1 && lm.size()) s.erase(lm.back()); if (sh == 3) { if (i == 0) s.clear(); else s = EV[(q * 7 + 5) % M]; } se.push_back(s); if (!sub(s, m) || vs[i] == "zz") ok = false; }
              Vars vn(vs); vector<ap_dim_t> dm; for (auto& v : vs) dm.push_back(at(m, v)); A1 de = dst ? val1(m, 3) : A1(); size_t n = vs.size();
              if (form < 2) { vector<ap_linexpr1_t> l1; vector<ap_linexpr0_t*> l0; for (size_t i = 0; i < n; i++) { auto ex = exprs(se[i]); NE e = ex[i % ex.size()]; l1.push_back(lin1(e, se[i])); l0.push_back(lin0(e, m)); } l1.push_back(ap_linexpr1_t()); l0.push_back(NULL); dm.push_back(0);
                op(g, form ? "substitute_linexpr_array" : "assign_linexpr_array", m, kind, m, [&](bool d, A1* a) { return form ? ap_abstract1_substitute_linexpr_array(man, d, a, vn.a(), &l1[0], n, dst ? &de : NULL) : ap_abstract1_assign_linexpr_array(man, d, a, vn.a(), &l1[0], n, dst ? &de : NULL); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return form ? ap_abstract0_substitute_linexpr_array(man, true, a, &dm[0], &l0[0], n, dst ? de.abstract0 : NULL) : ap_abstract0_assign_linexpr_array(man, true, a, &dm[0], &l0[0], n, dst ? de.abstract0 : NULL); }) : nullptr); for (size_t i = 0; i < n; i++) { ap_linexpr1_clear(&l1[i]); ap_linexpr0_free(l0[i]); } }
              else { vector<ap_texpr1_t> t1; vector<ap_texpr1_t*> p1; vector<ap_texpr0_t*> t0; for (size_t i = 0; i < n; i++) { p1.push_back(tr1(se[i], i)); t1.push_back(*p1.back()); t0.push_back(tr0(se[i], i, sub(se[i], m) ? m : se[i])); } t1.push_back(ap_texpr1_t()); t0.push_back(NULL); dm.push_back(0); bool sb = form == 3;
                op(g, sb ? "substitute_texpr_array" : "assign_texpr_array", m, kind, m, [&](bool d, A1* a) { return sb ? ap_abstract1_substitute_texpr_array(man, d, a, vn.a(), &t1[0], n, dst ? &de : NULL) : ap_abstract1_assign_texpr_array(man, d, a, vn.a(), &t1[0], n, dst ? &de : NULL); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return sb ? ap_abstract0_substitute_texpr_array(man, true, a, &dm[0], &t0[0], n, dst ? de.abstract0 : NULL) : ap_abstract0_assign_texpr_array(man, true, a, &dm[0], &t0[0], n, dst ? de.abstract0 : NULL); }) : nullptr); for (size_t i = 0; i < n; i++) { ap_texpr1_free(p1[i]); ap_texpr0_free(t0[i]); } }
              if (dst) ap_abstract1_clear(man, &de); } });
    R.group("env " + en, [=](G& g) { auto lm = lay(m); vector<string> al = lm; al.push_back("zz"); for (int kind = 0; kind < NK; kind++) {
        for (size_t p = 0; p < M; p++) for (int pr = 0; pr < 2; pr++) { const Env& n = EV[p]; if (!g.next([&] { return std::to_string(kind) + " change " + es(n) + std::to_string(pr); })) continue; bool ok = compat(m, n); Env both; for (auto& x : m) if (n.count(x.first)) both.insert(x); op(g, "change_environment", m, kind, n, [&](bool d, A1* a) { return ap_abstract1_change_environment(man, d, a, POOL[p], pr); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return embed(drop(a, m, both), both, n, pr); }) : nullptr); }
        if (g.next([&] { return std::to_string(kind) + " minimize_environment"; })) { Env n = m; A0* a = val0(m, kind); for (size_t i = 0; i < lm.size(); i++) if (ap_abstract0_is_dimension_unconstrained(man, a, i)) n.erase(lm[i]); ap_abstract0_free(man, a); op(g, "minimize_environment", m, kind, n, [&](bool d, A1* a) { return ap_abstract1_minimize_environment(man, d, a); }, [&](A0* a) { return drop(a, m, n); }); }
        if (g.next([&] { return std::to_string(kind) + " closure"; })) op(g, "closure", m, kind, m, [&](bool d, A1* a) { return ap_abstract1_closure(man, d, a); }, [&](A0* a) { return ap_abstract0_closure(man, true, a); });
        for (auto& vs : seqs(al, T ? 3 : 2)) for (int pr = 0; pr < 2; pr++) { if (!g.next([&] { return std::to_string(kind) + " forget " + ns(vs) + std::to_string(pr); })) continue; bool ok = true; vector<ap_dim_t> dm; for (auto& v : vs) { if (v == "zz") ok = false; dm.push_back(at(m, v)); } if (!distinct(vs)) continue; Vars vn(vs); size_t n = vs.size(); dm.push_back(0); op(g, "forget_array", m, kind, m, [&](bool d, A1* a) { return ap_abstract1_forget_array(man, d, a, vn.a(), n, pr); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return ap_abstract0_forget_array(man, true, a, &dm[0], n, pr); }) : nullptr); }
        vector<string> nal(NM, NM + N); nal.push_back("aa"); nal.push_back("z"); for (auto& vs : seqs(al, 2)) for (auto& ws : seqs(nal, 2)) { if (vs.size() != ws.size() || !distinct(vs)) continue; if (!g.next([&] { return std::to_string(kind) + " rename " + ns(vs) + ns(ws); })) continue; bool ok = true; std::map<string, string> f; for (size_t i = 0; i < vs.size(); i++) { if (!m.count(vs[i])) ok = false; f[vs[i]] = ws[i]; } Env n; vector<string> img; for (auto& x : lm) { string y = f.count(x) ? f[x] : x; if (n.count(y)) ok = false; n[y] = m.at(x); img.push_back(y); } Vars a(vs), b(ws); size_t k = vs.size(); op(g, "rename_array", m, kind, ok ? n : m, [&](bool d, A1* x) { return ap_abstract1_rename_array(man, d, x, a.a(), b.a(), k); }, ok ? std::function<A0*(A0*)>([&](A0* x) { return perm(x, img, lay(n)); }) : nullptr); }
        for (auto& v : al) for (auto& ws : seqs(nal, 2)) { if (!g.next([&] { return std::to_string(kind) + " expand " + v + ns(ws); })) continue; bool ok = m.count(v); Env n = m; vector<string> from = lm; for (auto& w : ws) { if (n.count(w)) ok = false; if (ok) { n[w] = m.at(v); if (m.at(v)) from.push_back(w); else from.insert(from.begin() + nint(n) - 1, w); } } if (ws.empty()) { ok = true; n = m; } Vars a({v}), b(ws); size_t k = ws.size(); op(g, "expand", m, kind, ok ? n : m, [&](bool d, A1* x) { return ap_abstract1_expand(man, d, x, a.p[0], b.a(), k); }, ok ? std::function<A0*(A0*)>([&](A0* x) { return k ? perm(ap_abstract0_expand(man, true, x, at(m, v), k), from, lay(n)) : x; }) : nullptr); }
        for (auto& vs : seqs(al, 3)) { bool mixed = !distinct(vs); for (auto& v : vs) if (v != "zz" && vs[0] != "zz" && m.at(v) != m.at(vs[0])) mixed = true; if (!g.next([&] { return std::to_string(kind) + " fold " + ns(vs); })) continue; bool ok = vs.size() > 0; for (auto& v : vs) if (v == "zz") ok = false; if (mixed) ok = false; Env n = m; for (size_t i = 1; i < vs.size(); i++) n.erase(vs[i]); Vars a(vs); size_t k = vs.size(); op(g, "fold", m, kind, ok ? n : m, [&](bool d, A1* x) { return ap_abstract1_fold(man, d, x, a.a(), k); }, ok ? std::function<A0*(A0*)>([&](A0* x) { if (k < 2) return x; vector<ap_dim_t> dm; for (auto& v : vs) dm.push_back(at(m, v)); std::sort(dm.begin(), dm.end()); vector<string> from; for (size_t i = 0; i < lm.size(); i++) { if (i == dm[0]) from.push_back(vs[0]); else if (std::find(dm.begin(), dm.end(), i) == dm.end()) from.push_back(lm[i]); } return perm(ap_abstract0_fold(man, true, x, &dm[0], k), from, lay(n)); }) : nullptr); }
        if (g.next([&] { return std::to_string(kind) + " queries"; })) { query(g, "is_bottom", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_is_bottom(man, a)); }, [&](A0* a) { return std::to_string(ap_abstract0_is_bottom(man, a)); }); query(g, "is_top", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_is_top(man, a)); }, [&](A0* a) { return std::to_string(ap_abstract0_is_top(man, a)); });
          query(g, "to_lincons_array", m, kind, [&](A1* a) { ap_lincons1_array_t r = ap_abstract1_to_lincons_array(man, a); if (!same_env(r.env, m)) g.fail("env", "to_lincons_array"); string s = arrs(&r.lincons0_array); ap_lincons1_array_clear(&r); return s; }, [&](A0* a) { ap_lincons0_array_t r = ap_abstract0_to_lincons_array(man, a); string s = arrs(&r); ap_lincons0_array_clear(&r); return s; });
          query(g, "to_tcons_array", m, kind, [&](A1* a) { ap_tcons1_array_t r = ap_abstract1_to_tcons_array(man, a); if (!same_env(r.env, m)) g.fail("env", "to_tcons_array"); string s = arrs(&r.tcons0_array); ap_tcons1_array_clear(&r); return s; }, [&](A0* a) { ap_tcons0_array_t r = ap_abstract0_to_tcons_array(man, a); string s = arrs(&r); ap_tcons0_array_clear(&r); return s; });
          query(g, "to_generator_array", m, kind, [&](A1* a) { ap_generator1_array_t r = ap_abstract1_to_generator_array(man, a); if (!same_env(r.env, m)) g.fail("env", "to_generator_array"); string s = arrs(&r.generator0_array); ap_generator1_array_clear(&r); return s; }, [&](A0* a) { ap_generator0_array_t r = ap_abstract0_to_generator_array(man, a); string s = arrs(&r); ap_generator0_array_clear(&r); return s; });
          query(g, "to_box", m, kind, [&](A1* a) { ap_box1_t r = ap_abstract1_to_box(man, a); if (!same_env(r.env, m)) g.fail("env", "to_box"); string s; if (r.p) for (size_t i = 0; i < m.size(); i++) s += interval_q(r.p[i]).str(); if (r.p) ap_box1_clear(&r); else ap_environment_free(r.env); return s; }, [&](A0* a) { ap_interval_t** r = ap_abstract0_to_box(man, a); string s; if (r) { for (size_t i = 0; i < m.size(); i++) s += interval_q(r[i]).str(); ap_interval_array_free(r, m.size()); } return s; });
          op(g, "copy", m, kind, m, [&](bool, A1* a) { return ap_abstract1_copy(man, a); }, [&](A0* a) { return a; }, false); op(g, "bottom", m, kind, m, [&](bool, A1* a) { return ap_abstract1_bottom(man, a->env); }, [&](A0* a) { ap_abstract0_free(man, a); return val0(m, 1); }, false); op(g, "top", m, kind, m, [&](bool, A1* a) { return ap_abstract1_top(man, a->env); }, [&](A0* a) { ap_abstract0_free(man, a); return val0(m, 0); }, false);
          for (auto& v : al) { Vars vn({v}); ap_dim_t dm = at(m, v); bool ok = v != "zz"; query(g, "bound_variable " + v, m, kind, [&](A1* a) { return itvs(ap_abstract1_bound_variable(man, a, vn.p[0])); }, ok ? std::function<string(A0*)>([&](A0* a) { return itvs(ap_abstract0_bound_dimension(man, a, dm)); }) : nullptr, "[-oo,+oo]"); query(g, "is_variable_unconstrained " + v, m, kind, [&](A1* a) { return std::to_string(ap_abstract1_is_variable_unconstrained(man, a, vn.p[0])); }, ok ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_is_dimension_unconstrained(man, a, dm)); }) : nullptr, "0");
            for (int b = 1; b < 12; b += 3) { ap_interval_t* iv = mk_interval(Itv(EQ(Q(b)), EQ(Q(b + 3)))); query(g, "sat_interval " + v, m, kind, [&](A1* a) { return std::to_string(ap_abstract1_sat_interval(man, a, vn.p[0], iv)); }, ok ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_sat_interval(man, a, dm, iv)); }) : nullptr, "0"); ap_interval_free(iv); } }
          { A1 x = val1(m, kind), y = val1(m, kind); ap_abstract1_canonicalize(man, &x); ap_abstract1_canonicalize(man, &y); if (ap_abstract1_hash(man, &x) != ap_abstract1_hash(man, &y)) g.fail("hash", "equal values hash differently"); if (ap_abstract1_size(man, &x) != ap_abstract0_size(man, x.abstract0)) g.fail("size", "differs from level 0"); ap_abstract1_minimize(man, &y); rst(); if (!ap_abstract1_is_eq(man, &x, &y)) g.fail("value", "minimize or canonicalize changed the value"); ap_abstract1_clear(man, &x); ap_abstract1_clear(man, &y); }
          { A1 x = val1(m, kind); char* p = NULL; size_t sz; FILE* o = open_memstream(&p, &sz); ap_abstract1_fprint(o, man, &x); fclose(o); string s1 = p; free(p); vector<string> nm = lm; Vars vn(nm); o = open_memstream(&p, &sz); ap_abstract0_fprint(o, man, x.abstract0, (char**)vn.a()); fclose(o); if (s1 != p) g.fail("print", s1); free(p); ap_abstract1_clear(man, &x); } } }
        // boxes
        for (auto& vs : seqs(al, T ? 3 : 2)) { if (!g.next([&] { return "of_box " + ns(vs); })) continue; bool ok = true; for (auto& v : vs) if (v == "zz") ok = false; Vars vn(vs); vector<ap_interval_t*> iv; for (size_t i = 0; i < vs.size(); i++) iv.push_back(mk_interval(Itv(EQ(Q((long)i)), i == 1 ? pinf() : EQ(Q(5 - (long)i))))); size_t n = vs.size(); iv.push_back(NULL); op(g, "of_box", m, 0, m, [&](bool, A1* a) { return ap_abstract1_of_box(man, a->env, vn.a(), &iv[0], n); }, ok ? std::function<A0*(A0*)>([&](A0* a) { ap_abstract0_free(man, a); vector<ap_interval_t*> t; for (auto& x : lm) { Itv w(minf(), pinf()); for (size_t i = 0; i < n; i++) if (vs[i] == x) w = Itv(EQ(Q((long)i)), i == 1 ? pinf() : EQ(Q(5 - (long)i))); t.push_back(mk_interval(w)); } t.push_back(NULL); A0* r = ap_abstract0_of_box(man, nint(m), lm.size() - nint(m), &t[0]); t.pop_back(); for (auto* x : t) ap_interval_free(x); return r; }) : nullptr, false); for (size_t i = 0; i < n; i++) ap_interval_free(iv[i]); } });
    R.group("pair " + en, [=](G& g) { for (size_t p = 0; p < M; p++) for (int kind = 0; kind < NK; kind++) for (int k2 = 0; k2 < NK; k2++) { const Env& n = EV[p]; bool same = m == n, co = compat(m, n); if (!same && !co && k2 > 1) continue; if (!g.next([&] { return std::to_string(kind) + std::to_string(k2) + es(n); })) continue; A1 b = val1(n, k2), c = val1(m, 4); A0* b0 = ap_abstract0_copy(man, b.abstract0);
        auto bin = [&](const string& w, const Env& exp, std::function<A1(bool, A1*, A1*)> f, std::function<A0*(A0*, A0*)> o, bool ok, bool des = true) { op(g, w, m, kind, exp, [&](bool d, A1* a) { return f(d, a, &b); }, ok ? std::function<A0*(A0*)>([&](A0* a) { return o(a, b0); }) : nullptr, des); };
        bin("meet", m, [&](bool d, A1* x, A1* y) { return ap_abstract1_meet(man, d, x, y); }, [&](A0* x, A0* y) { return ap_abstract0_meet(man, true, x, y); }, same); bin("join", m, [&](bool d, A1* x, A1* y) { return ap_abstract1_join(man, d, x, y); }, [&](A0* x, A0* y) { return ap_abstract0_join(man, true, x, y); }, same);
        { A0* j = same ? ap_abstract0_join(man, false, c.abstract0, b0) : NULL; A1 w = same ? A1{j, pool(m)} : b; if (kind == 4 || !same) op(g, "widening", m, 4, m, [&](bool, A1* x) { return ap_abstract1_widening(man, x, &w); }, same ? std::function<A0*(A0*)>([&](A0* x) { A0* r = ap_abstract0_widening(man, x, j); ap_abstract0_free(man, x); return r; }) : nullptr, false); if (j) ap_abstract0_free(man, j); } // the first argument of a widening is included in the second
        Env u = uni(m, n); if (same) bin("unify", m, [&](bool d, A1* x, A1* y) { return ap_abstract1_unify(man, d, x, y); }, [&](A0* x, A0* y) { return ap_abstract0_meet(man, true, x, y); }, true); else bin("unify", co ? u : m, [&](bool d, A1* x, A1* y) { return ap_abstract1_unify(man, d, x, y); }, [&](A0* x, A0* y) { A0* z = embed(ap_abstract0_copy(man, y), n, u); A0* r = ap_abstract0_meet(man, true, embed(x, m, u), z); ap_abstract0_free(man, z); return r; }, co);
        for (int jn = 0; jn < 2; jn++) { string w = jn ? "join_array" : "meet_array"; auto F = [&](A1* t, size_t k) { return jn ? ap_abstract1_join_array(man, t, k) : ap_abstract1_meet_array(man, t, k); }; auto O = [&](vector<A0*> t) { A0* r = jn ? ap_abstract0_join_array(man, &t[0], t.size()) : ap_abstract0_meet_array(man, &t[0], t.size()); return r; };
          bin(w + " 2", m, [&](bool, A1* x, A1* y) { A1 t[2] = {*x, *y}; return F(t, 2); }, [&](A0* x, A0* y) { A0* r = O({x, y}); ap_abstract0_free(man, x); return r; }, same, false); bin(w + " 3", m, [&](bool, A1* x, A1* y) { A1 t[3] = {*x, c, *y}; return F(t, 3); }, [&](A0* x, A0* y) { A0* r = O({x, c.abstract0, y}); ap_abstract0_free(man, x); return r; }, same, false);
          if (p == q && !k2) { bin(w + " 1", m, [&](bool, A1* x, A1*) { return F(x, 1); }, [&](A0* x, A0*) { A0* r = O({x}); ap_abstract0_free(man, x); return r; }, true, false); op(g, w + " 0", m, kind, Env(), [&](bool, A1* x) { return F(x, 0); }, nullptr, false); } }
        query(g, "is_leq", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_is_leq(man, a, &b)); }, same ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_is_leq(man, a, b0)); }) : nullptr, "0"); query(g, "is_eq", m, kind, [&](A1* a) { return std::to_string(ap_abstract1_is_eq(man, a, &b)); }, same ? std::function<string(A0*)>([&](A0* a) { return std::to_string(ap_abstract0_is_eq(man, a, b0)); }) : nullptr, "0");
        if (!same_env(b.env, n) || !ap_abstract0_is_eq(man, b.abstract0, b0)) g.fail("args", "second argument changed"); ap_abstract0_free(man, b0); ap_abstract1_clear(man, &b); ap_abstract1_clear(man, &c); } });
  }
  return R.run();
}
// ---- level-1 containers ----
static string pr(std::function<void(FILE*)> f) { char* p = NULL; size_t n; FILE* o = open_memstream(&p, &n); f(o); fclose(o); string s = p; free(p); return s; }
static std::map<string, Q> named(ap_linexpr0_t* l, const Env& m) { Lin x = read_linexpr(l, m.size()); std::map<string, Q> r; auto lm = lay(m); for (size_t i = 0; i < lm.size(); i++) { if (!x.c[i].scalar()) throw std::runtime_error("interval"); if (x.c[i].lo.v != 0) r[lm[i]] = x.c[i].lo.v; } r["."] = x.k.lo.v; return r; }
static std::map<string, Q> named(const NE& e) { std::map<string, Q> r; for (auto& x : e.c) if (x.second != 0) r[x.first] = x.second; r["."] = e.k; return r; }
int cont(Runner& R) {
  for (size_t q = 0; q < EV.size(); q++) { const Env& m = EV[q]; R.group("cont " + es(m), [=](G& g) { for (auto& n : EV) for (size_t k = 0; k < 3; k++) for (int sp = 0; sp < 2; sp++) { auto ex = exprs(m); if (k >= ex.size()) continue; NE e = ex[k]; e.w = 0; e.sparse = sp; if (!g.next([&] { return es(n) + str(e); })) continue; snap(); bool ok = sub(m, n); auto want = named(e); auto lm = lay(m);
        vector<string> q = {"a", "a1", "ab", "b", "zz"}; ap_coeff_t* cf = ap_coeff_alloc(AP_COEFF_SCALAR); auto cq = [&] { return coeff_q(cf).lo.v; };
        // linear expressions
        ap_linexpr1_t l = lin1(e, m); { ap_linexpr1_t c = ap_linexpr1_copy(&l); if (c.env != l.env || named(c.linexpr0, m) != want) g.fail("copy", "linexpr1"); ap_linexpr1_clear(&c); } if (named(l.linexpr0, m) != want) g.fail("model", "construction");
        for (auto& v : q) { Vars vn({v}); bool has = m.count(v); if (ap_linexpr1_get_coeff(cf, &l, vn.p[0]) != !has) g.fail("get_coeff", v); else if (has && cq() != (e.c.count(v) ? e.c.at(v) : Q(0))) g.fail("get_coeff", v + " gives " + qs(cq())); ap_linexpr1_t c = ap_linexpr1_copy(&l); ap_coeff_t* p = ap_linexpr1_coeffref(&c, vn.p[0]); if (!p != !has) g.fail("coeffref", v); if (p) { ap_coeff_set_scalar_int(p, 9); auto w = want; w[v] = 9; if (named(c.linexpr0, m) != w) g.fail("coeffref", v + ": other coefficient changed"); }
          if (ap_linexpr1_set_coeff_scalar_int(&c, vn.p[0], 11) != !has) g.fail("set_coeff", v); ap_coeff_set_scalar_int(cf, 11); if (has) { auto w = want; w[v] = 11; if (named(c.linexpr0, m) != w) g.fail("set_coeff", v); } if (ap_linexpr1_set_coeff(&c, vn.p[0], cf) != !has) g.fail("set_coeff", v); ap_linexpr1_set_cst(&c, cf); auto w = want; if (has) w[v] = 11; w["."] = 11; if (named(c.linexpr0, m) != w) g.fail("set_cst", v); ap_linexpr1_get_cst(cf, &c); if (cq() != 11) g.fail("get_cst", v);
          bool bad = ap_linexpr1_set_list(&c, AP_COEFF_S_INT, 5, vn.p[0], AP_CST_S_INT, 7, AP_END); if (bad != !has) g.fail("set_list", v); if (has) { w[v] = 5; w["."] = 7; if (named(c.linexpr0, m) != w) g.fail("set_list", v); } ap_linexpr1_clear(&c); }
        { Vars vn(lm); string s1 = pr([&](FILE* o) { ap_linexpr1_fprint(o, &l); }), s0 = pr([&](FILE* o) { ap_linexpr0_fprint(o, l.linexpr0, (char**)vn.a()); }); if (s1 != s0) g.fail("print", s1); bool I = true; for (auto& x : want) if (x.first == "." ? x.second.get_den() != 1 : (m.at(x.first) || x.second.get_den() != 1)) I = false; if (ap_linexpr1_is_integer(&l) != I) g.fail("is_integer", s1); bool Rl = true; for (auto& x : want) if (x.first != "." && !m.at(x.first)) Rl = false; if (ap_linexpr1_is_real(&l) != Rl) g.fail("is_real", s1); if (!ap_linexpr1_is_linear(&l) || !ap_linexpr1_is_quasilinear(&l)) g.fail("is_linear", s1); }
        { ap_linexpr1_t x; bool bad = ap_linexpr1_extend_environment(&x, &l, pool(n)); if (bad != !ok) g.fail("extend", "linexpr1"); if (!bad) { if (x.env != pool(n) || named(x.linexpr0, n) != want) g.fail("extend", "linexpr1 value"); ap_linexpr1_clear(&x); } x = ap_linexpr1_copy(&l); bad = ap_linexpr1_extend_environment_with(&x, pool(n)); if (bad != !ok) g.fail("extend_with", "linexpr1"); if (x.env != pool(ok ? n : m) || named(x.linexpr0, ok ? n : m) != want) g.fail("extend_with", "linexpr1 value"); ap_linexpr1_clear(&x); }
        // constraints and generators share the shape
        auto ext = [&](const string& w, bool bad, ap_environment_t* en, ap_linexpr0_t* x, bool copied) { if (bad != !ok) { g.fail("extend", w); return; } if (bad && !copied) return; const Env& t = bad ? m : n; if (en != pool(t)) g.fail("extend", w + " environment"); else if (named(x, t) != want) g.fail("extend", w + " value"); };
        { ap_scalar_t* md = k == 1 ? ap_scalar_alloc_set_double(3) : NULL; ap_lincons1_t c = ap_lincons1_make(k == 1 ? AP_CONS_EQMOD : AP_CONS_SUP, &l, md), c2 = ap_lincons1_copy(&c); if (c2.env != l.env || c2.lincons0.constyp != c.lincons0.constyp || named(c2.lincons0.linexpr0, m) != want || !c2.lincons0.scalar != !md) g.fail("copy", "lincons1");
          for (auto& v : q) { Vars vn({v}); bool has = m.count(v); if (ap_lincons1_get_coeff(cf, &c2, vn.p[0]) != !has || (has && cq() != (e.c.count(v) ? e.c.at(v) : Q(0)))) g.fail("get_coeff", "lincons1 " + v); ap_lincons1_t d = ap_lincons1_copy(&c); ap_coeff_set_scalar_int(cf, 11); if (ap_lincons1_set_coeff(&d, vn.p[0], cf) != !has) g.fail("set_coeff", "lincons1"); auto w = want; if (has) w[v] = 11; ap_lincons1_get_cst(cf, &d); if (cq() != e.k) g.fail("get_cst", "lincons1"); ap_coeff_set_scalar_int(cf, 6); ap_lincons1_set_cst(&d, cf); w["."] = 6; if (named(d.lincons0.linexpr0, m) != w) g.fail("set_coeff", "lincons1 " + v); bool bad = ap_lincons1_set_list(&d, AP_CST_S_INT, 7, AP_COEFF_S_INT, 5, vn.p[0], AP_END); if (bad != !has) g.fail("set_list", "lincons1"); if (has) w[v] = 5; w["."] = 7; if (named(d.lincons0.linexpr0, m) != w) g.fail("set_list", "lincons1 value"); ap_lincons1_clear(&d); }
          ap_linexpr1_t rf = ap_lincons1_linexpr1ref(&c2); if (rf.linexpr0 != c2.lincons0.linexpr0 || rf.env != c2.env || ap_lincons1_envref(&c2) != c2.env || ap_lincons1_cstref(&c2) != &c2.lincons0.linexpr0->cst || *ap_lincons1_constypref(&c2) != c2.lincons0.constyp || ap_lincons1_scalarref(&c2) != c2.lincons0.scalar || ap_lincons1_lincons0ref(&c2) != &c2.lincons0) g.fail("ref", "lincons1");
          ap_lincons1_t x; bool bad = ap_lincons1_extend_environment(&x, &c2, pool(n)); ext("lincons1", bad, bad ? NULL : x.env, bad ? NULL : x.lincons0.linexpr0, false); if (!bad) { if (x.lincons0.constyp != c2.lincons0.constyp || !x.lincons0.scalar != !md || (md && ap_scalar_cmp(x.lincons0.scalar, md))) g.fail("extend", "lincons1 type"); ap_lincons1_clear(&x); }
          ap_lincons1_array_t ar = ap_lincons1_array_make(pool(m), 3); if (ap_lincons1_array_size(&ar) != 3 || ap_lincons1_array_envref(&ar) != pool(m)) g.fail("array", "lincons1"); for (int i = 0; i < 3; i++) { ap_lincons1_t d = ap_lincons1_copy(&c); ap_coeff_set_scalar_int(&d.lincons0.linexpr0->cst, i); if (ap_lincons1_array_set(&ar, i, &d)) g.fail("array_set", "lincons1 refused"); } { ap_lincons1_t d = ap_lincons1_copy(&c); if (!ap_lincons1_array_set(&ar, 3, &d)) g.fail("array_set", "lincons1 out of range accepted"); ap_lincons1_clear(&d); ap_lincons1_t o = ap_lincons1_make_unsat(pool(n)); if (!ap_lincons1_is_unsat(&o)) g.fail("unsat", "make_unsat"); bool r = ap_lincons1_array_set(&ar, 1, &o); if (r != (n != m)) g.fail("array_set", "lincons1 environment check"); if (r) ap_lincons1_clear(&o); else { ap_lincons1_t d = ap_lincons1_copy(&c); ap_coeff_set_scalar_int(&d.lincons0.linexpr0->cst, 1); ap_lincons1_array_set(&ar, 1, &d); } }
          for (int wth = 0; wth < 2; wth++) { ap_lincons1_array_t na; bool bd; if (!wth) bd = ap_lincons1_array_extend_environment(&na, &ar, pool(n)); else bd = ap_lincons1_array_extend_environment_with(&ar, pool(n)); if (bd != !ok) g.fail("extend", "lincons1 array"); ap_lincons1_array_t* s = wth || bd ? &ar : &na; const Env& se = bd ? m : wth || s == &na ? n : m; if (s->env != pool(se)) g.fail("extend", "lincons1 array environment"); else for (int i = 0; i < 3; i++) { ap_lincons1_t d = ap_lincons1_array_get(s, i); auto w = want; w["."] = i; if (d.env != pool(se) || named(d.lincons0.linexpr0, se) != w) g.fail("array_get", "lincons1 " + std::to_string(i)); } if (!wth && !bd) ap_lincons1_array_clear(&na); } { Vars vn(lay(ok ? n : m)); string s1 = pr([&](FILE* o) { ap_lincons1_array_fprint(o, &ar); }), s0 = pr([&](FILE* o) { ap_lincons0_array_fprint(o, &ar.lincons0_array, (char**)vn.a()); }); if (s1 != s0) g.fail("print", s1); } ap_lincons1_array_clear_index(&ar, 2); ap_lincons1_array_clear(&ar);
          ap_tcons1_t t = ap_tcons1_from_lincons1(&c2), t2 = ap_tcons1_copy(&t), t3; if (t.env != c2.env || t2.env != c2.env || t2.tcons0.constyp != c2.lincons0.constyp || !ap_texpr0_equal(t.tcons0.texpr0, t2.tcons0.texpr0)) g.fail("copy", "tcons1"); bad = ap_tcons1_extend_environment(&t3, &t, pool(n)); if (bad != !ok) g.fail("extend", "tcons1"); if (!bad) { NE e2 = e; ap_linexpr0_t* le = lin0(e2, n); ap_texpr0_t* te = ap_texpr0_from_linexpr0(le); if (t3.env != pool(n) || t3.tcons0.constyp != c2.lincons0.constyp || !t3.tcons0.scalar != !md || (e.sparse && !ap_texpr0_equal(t3.tcons0.texpr0, te))) g.fail("extend", "tcons1 value"); ap_texpr0_free(te); ap_linexpr0_free(le); ap_tcons1_clear(&t3); }
          bad = ap_tcons1_extend_environment_with(&t2, pool(n)); if (bad != !ok || t2.env != pool(ok ? n : m)) g.fail("extend_with", "tcons1"); ap_tcons1_array_t ta = ap_tcons1_array_make(pool(m), 2); { ap_tcons1_t u = ap_tcons1_copy(&t); if (ap_tcons1_array_set(&ta, 1, &u)) g.fail("array_set", "tcons1"); u = ap_tcons1_copy(&t); if (!ap_tcons1_array_set(&ta, 2, &u)) g.fail("array_set", "tcons1 out of range"); else { if (ap_tcons1_array_set(&ta, 0, &u)) g.fail("array_set", "tcons1 0"); } u = ap_tcons1_array_get(&ta, 1); if (u.env != pool(m) || u.tcons0.texpr0 != ta.tcons0_array.p[1].texpr0) g.fail("array_get", "tcons1"); ap_tcons1_array_t tb; bad = ap_tcons1_array_extend_environment(&tb, &ta, pool(n)); if (bad != !ok) g.fail("extend", "tcons1 array"); bad = ap_tcons1_array_extend_environment_with(&ta, pool(n)); if (bad != !ok || ta.env != pool(ok ? n : m)) g.fail("extend_with", "tcons1 array"); if (ok) { for (int i = 0; i < 2; i++) if (tb.env != pool(n) || !ap_texpr0_equal(tb.tcons0_array.p[i].texpr0, t2.tcons0.texpr0) || !ap_texpr0_equal(ta.tcons0_array.p[i].texpr0, t2.tcons0.texpr0)) g.fail("extend", "tcons1 array value"); ap_tcons1_array_clear(&tb); } ap_tcons1_array_clear(&ta); } ap_tcons1_clear(&t); ap_tcons1_clear(&t2);
          bad = ap_lincons1_extend_environment_with(&c2, pool(n)); ext("lincons1 with", bad, c2.env, c2.lincons0.linexpr0, true); ap_lincons1_clear(&c2); if (md) ap_scalar_free(md); }
        { ap_generator1_t c = ap_generator1_make(k ? AP_GEN_VERTEX : AP_GEN_RAY, &l), c2 = ap_generator1_copy(&c); if (c2.env != l.env || c2.generator0.gentyp != c.generator0.gentyp || named(c2.generator0.linexpr0, m) != want) g.fail("copy", "generator1");
          for (auto& v : q) { Vars vn({v}); bool has = m.count(v); if (ap_generator1_get_coeff(cf, &c2, vn.p[0]) != !has || (has && cq() != (e.c.count(v) ? e.c.at(v) : Q(0)))) g.fail("get_coeff", "generator1 " + v); ap_generator1_t d = ap_generator1_copy(&c); ap_coeff_set_scalar_int(cf, 11); if (ap_generator1_set_coeff(&d, vn.p[0], cf) != !has) g.fail("set_coeff", "generator1"); auto w = want; if (has) w[v] = 11; ap_generator1_get_cst(cf, &d); if (cq() != e.k) g.fail("get_cst", "generator1"); ap_coeff_set_scalar_int(cf, 6); ap_generator1_set_cst(&d, cf); w["."] = 6; if (named(d.generator0.linexpr0, m) != w) g.fail("set_coeff", "generator1 " + v); bool bad = ap_generator1_set_list(&d, AP_CST_S_INT, 7, AP_COEFF_S_INT, 5, vn.p[0], AP_END); if (bad != !has) g.fail("set_list", "generator1"); if (has) w[v] = 5; w["."] = 7; if (named(d.generator0.linexpr0, m) != w) g.fail("set_list", "generator1 value"); ap_generator1_clear(&d); }
          ap_linexpr1_t rf = ap_generator1_linexpr1ref(&c2); if (rf.linexpr0 != c2.generator0.linexpr0 || rf.env != c2.env || ap_generator1_envref(&c2) != c2.env || ap_generator1_cstref(&c2) != &c2.generator0.linexpr0->cst || *ap_generator1_gentypref(&c2) != c2.generator0.gentyp || ap_generator1_generator0ref(&c2) != &c2.generator0) g.fail("ref", "generator1");
          ap_generator1_t x; bool bad = ap_generator1_extend_environment(&x, &c2, pool(n)); ext("generator1", bad, bad ? NULL : x.env, bad ? NULL : x.generator0.linexpr0, false); if (!bad) { if (x.generator0.gentyp != c2.generator0.gentyp) g.fail("extend", "generator1 type"); ap_generator1_clear(&x); }
          ap_generator1_array_t ar = ap_generator1_array_make(pool(m), 2); for (int i = 0; i < 2; i++) { ap_generator1_t d = ap_generator1_copy(&c); ap_coeff_set_scalar_int(&d.generator0.linexpr0->cst, i); if (ap_generator1_array_set(&ar, i, &d)) g.fail("array_set", "generator1 refused"); } { ap_generator1_t d = ap_generator1_copy(&c); if (!ap_generator1_array_set(&ar, 2, &d)) g.fail("array_set", "generator1 out of range accepted"); ap_generator1_clear(&d); }
          for (int wth = 0; wth < 2; wth++) { ap_generator1_array_t na; bool bd; if (!wth) bd = ap_generator1_array_extend_environment(&na, &ar, pool(n)); else bd = ap_generator1_array_extend_environment_with(&ar, pool(n)); if (bd != !ok) g.fail("extend", "generator1 array"); ap_generator1_array_t* s = wth || bd ? &ar : &na; const Env& se = bd ? m : n; if (s->env != pool(se)) g.fail("extend", "generator1 array environment"); else for (int i = 0; i < 2; i++) { ap_generator1_t d = ap_generator1_array_get(s, i); auto w = want; w["."] = i; if (d.env != pool(se) || named(d.generator0.linexpr0, se) != w) g.fail("array_get", "generator1 " + std::to_string(i)); } if (!wth && !bd) ap_generator1_array_clear(&na); } ap_generator1_array_clear(&ar);
          bad = ap_generator1_extend_environment_with(&c2, pool(n)); ext("generator1 with", bad, c2.env, c2.generator0.linexpr0, true); ap_generator1_clear(&c2); }
        // trees
        for (int t = 0; t < NT && k == 0 && sp; t++) { ap_texpr1_t *x = tr1(m, t), *y = ap_texpr1_copy(x); ap_texpr0_t* x0 = tr0(m, t, m); if (x->env != pool(m) || y->env != pool(m) || !ap_texpr0_equal(x->texpr0, x0) || !ap_texpr1_equal(x, y)) g.fail("tree", "copy " + std::to_string(t));
          for (auto& v : q) { Vars vn({v}); if (ap_texpr1_has_var(x, vn.p[0]) != (m.count(v) && ap_texpr0_has_dim(x0, at(m, v)))) g.fail("has_var", v); ap_texpr1_t* w = ap_texpr1_var(pool(m), vn.p[0]); if (!w != !m.count(v)) g.fail("tree", "var " + v); if (w) { if (w->texpr0->discr != AP_TEXPR_DIM || w->texpr0->val.dim != at(m, v)) g.fail("tree", "var " + v); ap_texpr1_free(w); }
            for (int o = 0; o < 2; o++) { ap_texpr1_t* dst = o ? tr1(n, 3) : tr1(m, 3); bool good = m.count(v) && (!o || n == m); ap_texpr1_t* r = ap_texpr1_substitute(x, vn.p[0], dst); if (!r != !good) g.fail("substitute", v); if (good) { ap_texpr0_t* r0 = ap_texpr0_substitute(x0, at(m, v), dst->texpr0); if (r) { if (r->env != pool(m) || !ap_texpr0_equal(r->texpr0, r0)) g.fail("substitute", v + " value"); ap_texpr1_free(r); } ap_texpr0_free(r0); } ap_texpr1_free(dst); } }
          { ap_texpr1_t* z = tr1(n, t); if (n != m && ap_texpr1_equal(x, z)) g.fail("equal", "different environments"); ap_texpr1_free(z); } ap_texpr1_t* r = ap_texpr1_extend_environment(x, pool(n)); if (!r != !ok) g.fail("extend", "texpr1"); bool bad = ap_texpr1_extend_environment_with(y, pool(n)); if (bad != !ok || y->env != pool(ok ? n : m)) g.fail("extend_with", "texpr1"); if (r) { ap_texpr0_t* r0 = tr0(m, t, n); if (r->env != pool(n) || !ap_texpr0_equal(r->texpr0, r0) || !ap_texpr0_equal(y->texpr0, r0)) g.fail("extend", "texpr1 value"); ap_texpr0_free(r0); ap_texpr1_free(r); }
          { Vars vn(lm); string s1 = pr([&](FILE* o) { ap_texpr1_fprint(o, x); }), s0 = pr([&](FILE* o) { ap_texpr0_fprint(o, x0, (char**)vn.a()); }); if (s1 != s0) g.fail("print", s1); } ap_texpr1_free(x); ap_texpr1_free(y); ap_texpr0_free(x0); if (n != m) { ap_texpr1_t *a = tr1(m, 0), *b = tr1(n, 0); if (ap_texpr1_binop(AP_TEXPR_ADD, a, b, AP_RTYPE_REAL, AP_RDIR_RND)) g.fail("tree", "binop over different environments accepted"); else { ap_texpr1_free(a); ap_texpr1_free(b); } } }
        { ap_texpr1_t* x = ap_texpr1_from_linexpr1(&l); ap_texpr0_t* x0 = ap_texpr0_from_linexpr0(l.linexpr0); if (x->env != pool(m) || !ap_texpr0_equal(x->texpr0, x0)) g.fail("tree", "from_linexpr1"); ap_texpr1_free(x); ap_texpr0_free(x0); }
        if (named(l.linexpr0, m) != want) g.fail("args", "expression changed"); ap_linexpr1_clear(&l); ap_coeff_free(cf); counts(g, "containers"); g.ok(ok); } }); }
  return R.run();
}
