// level 1: the classes against the C level-1 functions
static ap_environment_t* ENV(int k) { static ap_environment_t* e[3] = {NULL, NULL, NULL}; if (!e[k]) e[k] = mk(k == 0 ? Env{{"x", 0}, {"y", 1}, {"z", 1}} : k == 1 ? Env{{"x", 0}, {"y", 1}, {"w", 1}, {"z", 1}} : Env{{"x", 0}, {"z", 1}, {"v", 1}}); return e[k]; }
struct EE : X::environment { EE(ap_environment_t* e) : X::environment(e) {} };
static X::environment XE(int k) { return EE(ap_environment_copy(ENV(k))); }
static const char* VN[] = {"x", "y", "z"};
static A1 val1(size_t i, int k = 0) { A1 r; r.abstract0 = val(i); r.env = ap_environment_copy(ENV(k)); if (k == 1) { ap_dimchange_t* c = dch(0, 1, {2}); ap_dimchange_t* p = ap_environment_dimchange(ENV(0), ENV(1)); r.abstract0 = ap_abstract0_add_dimensions(man, true, r.abstract0, p, false); ap_dimchange_free(c); ap_dimchange_free(p); } return r; }
struct Val1 { A1 a; Val1(size_t i, int k = 0) : a(val1(i, k)) {} Val1(const A1& x) : a(x) {} ~Val1() { if (a.abstract0) ap_abstract1_clear(man, &a); } Val1(const Val1&) = delete; };
static bool same1(const A1* a, const A1* b) { return a->env && b->env && ap_environment_is_eq(a->env, b->env) && same(a->abstract0, b->abstract0); }
static string a1s(const A1* a) { string s; for (size_t i = 0; i < a->env->intdim + a->env->realdim; i++) s += string((char*)a->env->var_of_dim[i]) + " "; return s + ab(a->abstract0); }
#define P1(x) ((A1*)(x).get_ap_abstract1_t())
static void op1(G& g, const string& nm, int ky, std::function<XB&(XB&, const XB&)> inp, std::function<XB&(XB&, const XB&, const XB&)> tri, std::function<A1(A1*, A1*)> ref) {
  size_t n = SYS().size();
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!g.next([&] { return nm + " value " + S(i) + "," + S(j); })) continue;
    Val1 a(i), b(j, ky), c((i + j + 3) % n, (i + j) % 3); rst(); Val1 w(ref(&a.a, &b.a)); ap_exc_t we = man->result.exn; rst(); size_t cnt[3]; for (int k = 0; k < 3; k++) cnt[k] = ENV(k)->count;
    auto wrap = [&](const char* form, int alias) { { bool threw = false; XB x(*M, *(XB*)&a.a), y(*M, *(XB*)&b.a), d(*M, *(XB*)&c.a); XB* res = NULL; XB* dst = alias == 0 || alias == 2 ? &x : alias == 1 ? &d : &y;
      try { if (alias == 0) res = &inp(x, y); else res = &tri(*dst, x, y); } catch (std::exception& e) { threw = true; }
      if (threw != (we != AP_EXC_NONE)) { g.fail("exn", nm + form + (threw ? ": throws" : ": does not throw") + ", the C function " + (we ? "raises" : "does not")); return; }
      if (!threw) { if (res != dst) g.fail("ref", nm + form + ": does not return its destination");
        if (!same1(P1(*dst), &w.a)) g.fail("value", nm + form + ": " + a1s(P1(*dst)) + " instead of " + a1s(&w.a));
        if (dst != &x && !same1(P1(x), &a.a)) g.fail("args", nm + form + ": changed its first argument");
        if (dst != &y && !same1(P1(y), &b.a)) g.fail("args", nm + form + ": changed its second argument"); } else return; }
      for (int k = 0; k < 3; k++) if (ENV(k)->count != cnt[k]) { g.fail("count", nm + form + ": reference count of an environment is off"); cnt[k] = ENV(k)->count; } };
    if (inp) wrap(" in place", 0); if (tri) { wrap(" to another", 1); wrap(" to the first", 2); wrap(" to the second", 3); } g.ok(std::hash<string>()(w.a.abstract0 ? a1s(&w.a) : "")); } }
static void q1(G& g, const string& nm, std::function<string(const XB&, const XB&)> f, std::function<string(A1*, A1*)> ref) {
  size_t n = SYS().size(); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!g.next([&] { return nm + " value " + S(i) + "," + S(j); })) continue;
    Val1 a(i), b(j); rst(); string w = ref(&a.a, &b.a); ap_exc_t we = man->result.exn; rst(); string r; bool threw = false; { XB x(*M, *(XB*)&a.a), y(*M, *(XB*)&b.a); try { r = f(x, y); } catch (std::exception& e) { threw = true; } }
    if (threw != (we != AP_EXC_NONE)) g.fail("exn", nm + (threw ? ": throws" : ": does not throw") + ", the C function " + (we ? "raises" : "does not")); else if (!threw && r != w) g.fail("value", nm + ": " + r + " instead of " + w); g.ok(std::hash<string>()(w)); } }
#undef IN
#undef TRI
#undef REF
#undef NOTRI
#undef NOIN
#define IN [=](XB& x, const XB& y) -> XB&
#define TRI [=](XB& d, const XB& x, const XB& y) -> XB&
#define REF [=](A1* a, A1* b) -> A1
#define NOTRI std::function<XB&(XB&, const XB&, const XB&)>()
#define NOIN std::function<XB&(XB&, const XB&)>()
static ap_linexpr1_t clin1(const Lin& l, int k = 0) { ap_linexpr1_t r; r.linexpr0 = mk_linexpr(l, true); r.env = ap_environment_copy(ENV(k)); return r; }
static X::linexpr1 xlin1(const Lin& l) { return X::linexpr1(XE(0), xlin(l)); }
static ap_texpr1_t* ctree1(int k) { ap_texpr1_t* r = (ap_texpr1_t*)malloc(sizeof(ap_texpr1_t)); r->texpr0 = tree(k); r->env = ap_environment_copy(ENV(0)); return r; }
static X::texpr1 xtree1(int k) { return X::texpr1(XE(0), xtree(k)); }
static ap_lincons1_array_t cla1(const vector<Cons>& v) { ap_lincons1_array_t r; r.lincons0_array = mk_lincons_array(v, true); r.env = ap_environment_copy(ENV(0)); return r; }
static X::lincons1_array xla1(const vector<Cons>& v) { X::lincons1_array r(XE(0), v.size()); for (size_t i = 0; i < v.size(); i++) r.set(i, X::lincons1((ap_constyp_t)v[i].t, xlin1(v[i].e))); return r; }
static ap_tcons1_array_t cta1(int k, int t) { ap_tcons1_array_t r; r.tcons0_array = cta(k, t); r.env = ap_environment_copy(ENV(0)); return r; }
static X::tcons1_array xta1(int k, int t) { X::tcons1_array r(XE(0), 1); r.set(0, X::tcons1((ap_constyp_t)t, xtree1(k))); return r; }
static ap_generator1_array_t cgen1(int k) { ap_generator1_array_t r; r.generator0_array = cgen(k); r.env = ap_environment_copy(ENV(0)); return r; }
static X::generator1_array xgen1(int k) { X::generator0_array z = xgen(k); X::generator1_array r(XE(0), z.size()); for (size_t i = 0; i < z.size(); i++) r.set(i, X::generator1(XE(0), z[i])); return r; }
static vector<X::var> xv(std::initializer_list<const char*> l) { vector<X::var> r; for (auto s : l) r.push_back(X::var(string(s))); return r; }
static void level1(Runner& R) {
  R.group("lattice1", [](G& g) {
    op1(g, "meet", 0, IN { return x.meet(*M, y); }, TRI { return meet(*M, d, x, y); }, REF { return ap_abstract1_meet(man, false, a, b); });
    op1(g, "join", 0, IN { return x.join(*M, y); }, TRI { return join(*M, d, x, y); }, REF { return ap_abstract1_join(man, false, a, b); });
    for (int k = 0; k < 3; k++) op1(g, "unify " + S(k), k, IN { return x.unify(*M, y); }, TRI { return unify(*M, d, x, y); }, REF { return ap_abstract1_unify(man, false, a, b); });
    op1(g, "*=", 0, IN { return x *= y; }, NOTRI, REF { return ap_abstract1_meet(man, false, a, b); });
    op1(g, "+=", 0, IN { return x += y; }, NOTRI, REF { return ap_abstract1_join(man, false, a, b); });
    for (int k = 0; k < 3; k++) { op1(g, "= value " + S(k), k, IN { return x = y; }, NOTRI, REF { return ap_abstract1_copy(man, b); }); op1(g, "set value " + S(k), k, IN { return x.set(*M, y); }, NOTRI, REF { return ap_abstract1_copy(man, b); });
      op1(g, "set top " + S(k), 0, IN { return x.set(*M, XE(k), X::top()); }, NOTRI, REF { return ap_abstract1_top(man, ENV(k)); }); op1(g, "set bottom " + S(k), 0, IN { return x.set(*M, XE(k), X::bottom()); }, NOTRI, REF { return ap_abstract1_bottom(man, ENV(k)); });
      for (int p = 0; p < 2; p++) { bool pr = p; op1(g, "change_environment " + S(k) + S(p), 0, IN { return change_environment(*M, x, x, XE(k), pr); }, TRI { return change_environment(*M, d, x, XE(k), pr); }, REF { return ap_abstract1_change_environment(man, false, a, ENV(k), pr); }); } }
    op1(g, "minimize_environment", 0, IN { return x.minimize_environment(*M); }, TRI { return minimize_environment(*M, d, x); }, REF { return ap_abstract1_minimize_environment(man, false, a); });
    op1(g, "= top", 0, IN { return x = X::top(); }, NOTRI, REF { return ap_abstract1_top(man, ENV(0)); }); op1(g, "= bottom", 0, IN { return x = X::bottom(); }, NOTRI, REF { return ap_abstract1_bottom(man, ENV(0)); });
    op1(g, "set top", 0, IN { return x.set(*M, X::top()); }, NOTRI, REF { return ap_abstract1_top(man, ENV(0)); }); op1(g, "set bottom", 0, IN { return x.set(*M, X::bottom()); }, NOTRI, REF { return ap_abstract1_bottom(man, ENV(0)); });
    op1(g, "canonicalize", 0, IN { return x.canonicalize(*M); }, NOTRI, REF { A1 r = ap_abstract1_copy(man, a); ap_abstract1_canonicalize(man, &r); return r; });
    op1(g, "closure", 0, IN { return x.closure(*M); }, TRI { return closure(*M, d, x); }, REF { return ap_abstract1_closure(man, false, a); });
    op1(g, "widening of the join", 0, NOIN, TRI { XB j(*M, XE(0), X::top()); join(*M, j, x, y); return widening(*M, d, x, j); }, REF { Val1 j(ap_abstract1_join(man, false, a, b)); return ap_abstract1_widening(man, a, &j.a); });
    for (auto& v : CA()) op1(g, "widening threshold", 0, NOIN, TRI { XB j(*M, XE(0), X::top()); join(*M, j, x, y); return widening(*M, d, x, j, xla1(v)); }, REF { Val1 j(ap_abstract1_join(man, false, a, b)); ap_lincons1_array_t l = cla1(v); A1 r = ap_abstract1_widening_threshold(man, a, &j.a, &l); ap_lincons1_array_clear(&l); return r; }); });
  R.group("array1", [](G& g) { for (int form = 0; form < 2; form++) for (int k = 1; k <= 3; k++) for (int o = 0; o < 2; o++) op1(g, string(o ? "join" : "meet") + " of " + S(k) + (form ? " pointers" : " vector"), 0, NOIN,
      TRI { XB t(*M, x); const XB* p[3] = {&x, &y, &t}; std::vector<const XB*> v(p, p + k); return form ? (o ? join(*M, d, (size_t)k, p) : meet(*M, d, (size_t)k, p)) : (o ? join(*M, d, v) : meet(*M, d, v)); },
      REF { A1 p[3] = {*a, *b, *a}; return o ? ap_abstract1_join_array(man, p, k) : ap_abstract1_meet_array(man, p, k); }); });
  R.group("cons1", [](G& g) { for (auto& v : CA()) { auto f = REF { ap_lincons1_array_t l = cla1(v); A1 r = ap_abstract1_meet_lincons_array(man, false, a, &l); ap_lincons1_array_clear(&l); return r; };
      op1(g, "meet lincons", 0, IN { return x.meet(*M, xla1(v)); }, TRI { return meet(*M, d, x, xla1(v)); }, f); op1(g, "*= lincons", 0, IN { return x *= xla1(v); }, NOTRI, f);
      auto h = REF { ap_lincons1_array_t l = cla1(v); A1 r = ap_abstract1_of_lincons_array(man, ENV(0), &l); ap_lincons1_array_clear(&l); return r; };
      op1(g, "= lincons", 0, IN { return x = xla1(v); }, NOTRI, h); op1(g, "set lincons", 0, IN { return x.set(*M, xla1(v)); }, NOTRI, h); op1(g, "construct lincons", 0, IN { XB t(*M, xla1(v)); return x = t; }, NOTRI, h); }
    for (int k = 0; k < NT; k++) for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP}) { auto f = REF { ap_tcons1_array_t l = cta1(k, t); A1 r = ap_abstract1_meet_tcons_array(man, false, a, &l); ap_tcons1_array_clear(&l); return r; };
      op1(g, "meet tcons " + S(k) + CT[t], 0, IN { return x.meet(*M, xta1(k, t)); }, TRI { return meet(*M, d, x, xta1(k, t)); }, f); op1(g, "*= tcons" + S(k) + CT[t], 0, IN { return x *= xta1(k, t); }, NOTRI, f);
      auto h = REF { ap_tcons1_array_t l = cta1(k, t); A1 r = ap_abstract1_of_tcons_array(man, ENV(0), &l); ap_tcons1_array_clear(&l); return r; };
      op1(g, "= tcons" + S(k) + CT[t], 0, IN { return x = xta1(k, t); }, NOTRI, h); op1(g, "set tcons" + S(k) + CT[t], 0, IN { return x.set(*M, xta1(k, t)); }, NOTRI, h); op1(g, "construct tcons" + S(k) + CT[t], 0, IN { XB u(*M, xta1(k, t)); return x = u; }, NOTRI, h); }
    for (int k = 0; k < 3; k++) for (int form = 0; form < 3; form++) { auto h = REF { ap_interval_t** l = cbox(k); Vars v({"z", "x", "y"}); A1 r = form == 2 ? A1() : ap_abstract1_of_box(man, ENV(0), v.a(), l, 3); if (form == 2) { r.env = ap_environment_copy(ENV(0)); r.abstract0 = ap_abstract0_of_box(man, NI, NR, l); } ap_interval_array_free(l, N); return r; };
      op1(g, "set box" + S(k) + S(form), 0, IN { vector<X::var> v = xv({"z", "x", "y"}); return form == 2 ? x.set(*M, boxof(k)) : form ? x.set(*M, XE(0), v, boxof(k)) : x.set(*M, XE(0), &v[0], boxof(k)); }, NOTRI, h);
      op1(g, "construct box" + S(k) + S(form), 0, IN { vector<X::var> v = xv({"z", "x", "y"}); if (form == 2) return x = boxof(k); if (form) { XB t(*M, XE(0), v, boxof(k)); return x = t; } XB t(*M, XE(0), &v[0], boxof(k)); return x = t; }, NOTRI, h); }
    for (int k = 0; k < 2; k++) { auto h = REF { ap_generator1_array_t l = cgen1(k); A1 r = ap_abstract1_add_ray_array(man, false, a, &l); ap_generator1_array_clear(&l); return r; }; op1(g, "add_rays" + S(k), 0, IN { return x.add_rays(*M, xgen1(k)); }, TRI { return add_rays(*M, d, x, xgen1(k)); }, h); op1(g, "+= gens" + S(k), 0, IN { return x += xgen1(k); }, NOTRI, h); }
    for (int k = 0; k < 3; k++) { op1(g, "construct top " + S(k), 0, IN { XB t(*M, XE(k), X::top()); return x = t; }, NOTRI, REF { return ap_abstract1_top(man, ENV(k)); }); op1(g, "construct bottom " + S(k), 0, IN { XB t(*M, XE(k), X::bottom()); return x = t; }, NOTRI, REF { return ap_abstract1_bottom(man, ENV(k)); }); }
    op1(g, "construct from level 0", 0, IN { XB t(*M, XE(0), y.get_abstract0()); return x = t; }, NOTRI, REF { return ap_abstract1_copy(man, b); }); });
  for (int sub = 0; sub < 2; sub++) R.group(sub ? "substitute1" : "assign1", [sub](G& g) {
    auto cl = [sub](A1* a, std::initializer_list<const char*> vs, ap_linexpr1_t* e, size_t n, A1* dest) { vector<string> nv; for (auto s : vs) nv.push_back(s); Vars v(nv); return sub ? ap_abstract1_substitute_linexpr_array(man, false, a, v.a(), e, n, dest) : ap_abstract1_assign_linexpr_array(man, false, a, v.a(), e, n, dest); };
    auto ct = [sub](A1* a, std::initializer_list<const char*> vs, ap_texpr1_t* e, size_t n, A1* dest) { vector<string> nv; for (auto s : vs) nv.push_back(s); Vars v(nv); return sub ? ap_abstract1_substitute_texpr_array(man, false, a, v.a(), e, n, dest) : ap_abstract1_assign_texpr_array(man, false, a, v.a(), e, n, dest); };
    for (const char* dm : {"x", "y", "z", "nope"}) for (size_t k = 0; k < LX().size(); k++) for (int in = 0; in < 2; in++) { Lin l = LX()[k]; int kt = k; string nm = string(dm) + " := " + l.str() + (in ? " within" : "");
      op1(g, nm, 0, IN { X::var v((string)dm); if (in) return AS((*M, v, xlin1(l), y)); return AS((*M, v, xlin1(l))); }, TRI { X::var v((string)dm); if (in) return AT((*M, d, x, v, xlin1(l), y)); return AT((*M, d, x, v, xlin1(l))); }, REF { ap_linexpr1_t e = clin1(l); A1 r = cl(a, {dm}, &e, 1, in ? b : NULL); ap_linexpr1_clear(&e); return r; });
      op1(g, nm + " tree", 0, IN { X::var v((string)dm); if (in) return AS((*M, v, xtree1(kt), y)); return AS((*M, v, xtree1(kt))); }, TRI { X::var v((string)dm); if (in) return AT((*M, d, x, v, xtree1(kt), y)); return AT((*M, d, x, v, xtree1(kt))); }, REF { ap_texpr1_t* e = ctree1(kt); A1 r = ct(a, {dm}, e, 1, in ? b : NULL); ap_texpr1_free(e); return r; }); }
    for (int form = 0; form < 2; form++) for (int in = 0; in < 2; in++) for (size_t k = 0; k < LX().size(); k++) { Lin l = LX()[k], l2 = LX()[(k + 1) % LX().size()]; int kt = k; string nm = string("(z,x) := ") + l.str() + "," + l2.str() + (form ? " pointers" : " vectors") + (in ? " within" : "");
      op1(g, nm, 0, IN { X::linexpr1 e = xlin1(l), f = xlin1(l2); vector<X::var> q = xv({"z", "x"}); const X::linexpr1* p[2] = {&e, &f}; std::vector<const X::linexpr1*> vp(p, p + 2); if (in) return form ? AS((*M, (size_t)2, &q[0], p, y)) : AS((*M, q, vp, y)); return form ? AS((*M, (size_t)2, &q[0], p)) : AS((*M, q, vp)); },
        TRI { X::linexpr1 e = xlin1(l), f = xlin1(l2); vector<X::var> q = xv({"z", "x"}); const X::linexpr1* p[2] = {&e, &f}; std::vector<const X::linexpr1*> vp(p, p + 2); if (in) return form ? AT((*M, d, x, (size_t)2, &q[0], p, y)) : AT((*M, d, x, q, vp, y)); return form ? AT((*M, d, x, (size_t)2, &q[0], p)) : AT((*M, d, x, q, vp)); },
        REF { ap_linexpr1_t p[2] = {clin1(l), clin1(l2)}; A1 r = cl(a, {"z", "x"}, p, 2, in ? b : NULL); ap_linexpr1_clear(&p[0]); ap_linexpr1_clear(&p[1]); return r; });
      op1(g, nm + " trees", 0, IN { X::texpr1 e = xtree1(kt), f = xtree1((kt + 1) % NT); vector<X::var> q = xv({"z", "x"}); const X::texpr1* p[2] = {&e, &f}; std::vector<const X::texpr1*> vp(p, p + 2); if (in) return form ? AS((*M, (size_t)2, &q[0], p, y)) : AS((*M, q, vp, y)); return form ? AS((*M, (size_t)2, &q[0], p)) : AS((*M, q, vp)); },
        TRI { X::texpr1 e = xtree1(kt), f = xtree1((kt + 1) % NT); vector<X::var> q = xv({"z", "x"}); const X::texpr1* p[2] = {&e, &f}; std::vector<const X::texpr1*> vp(p, p + 2); if (in) return form ? AT((*M, d, x, (size_t)2, &q[0], p, y)) : AT((*M, d, x, q, vp, y)); return form ? AT((*M, d, x, (size_t)2, &q[0], p)) : AT((*M, d, x, q, vp)); },
        REF { ap_texpr1_t* t1 = ctree1(kt); ap_texpr1_t* t2 = ctree1((kt + 1) % NT); ap_texpr1_t p[2] = {*t1, *t2}; A1 r = ct(a, {"z", "x"}, p, 2, in ? b : NULL); ap_texpr1_free(t1); ap_texpr1_free(t2); return r; }); } });
  R.group("vars1", [](G& g) { for (int p = 0; p < 2; p++) { bool pr = p; for (const char* n : {"x", "y", "z", "nope"}) op1(g, string("forget ") + n + (p ? " project" : ""), 0, IN { return x.forget(*M, X::var((string)n), pr); }, TRI { return forget(*M, d, x, X::var((string)n), pr); }, REF { Vars v({n}); return ap_abstract1_forget_array(man, false, a, v.a(), 1, pr); });
      for (int form = 0; form < 2; form++) op1(g, "forget z,x " + S(form) + (p ? " project" : ""), 0, IN { vector<X::var> v = xv({"z", "x"}); return form ? x.forget(*M, v, pr) : x.forget(*M, (size_t)2, &v[0], pr); }, TRI { vector<X::var> v = xv({"z", "x"}); return form ? forget(*M, d, x, v, pr) : forget(*M, d, x, (size_t)2, &v[0], pr); }, REF { Vars v({"z", "x"}); return ap_abstract1_forget_array(man, false, a, v.a(), 2, pr); }); }
    for (int form = 0; form < 2; form++) { op1(g, "rename " + S(form), 0, IN { vector<X::var> o = xv({"z", "x"}), n = xv({"b", "t"}); return form ? x.rename(*M, o, n) : x.rename(*M, 2, &o[0], &n[0]); }, TRI { vector<X::var> o = xv({"z", "x"}), n = xv({"b", "t"}); return form ? rename(*M, d, x, o, n) : rename(*M, d, x, 2, &o[0], &n[0]); }, REF { Vars o({"z", "x"}), n({"b", "t"}); return ap_abstract1_rename_array(man, false, a, o.a(), n.a(), 2); });
      op1(g, "rename invalid " + S(form), 0, IN { vector<X::var> o = xv({"z", "x"}), n = xv({"y", "t"}); return form ? x.rename(*M, o, n) : x.rename(*M, 2, &o[0], &n[0]); }, TRI { vector<X::var> o = xv({"z", "x"}), n = xv({"y", "t"}); return form ? rename(*M, d, x, o, n) : rename(*M, d, x, 2, &o[0], &n[0]); }, REF { Vars o({"z", "x"}), n({"y", "t"}); return ap_abstract1_rename_array(man, false, a, o.a(), n.a(), 2); });
      for (const char* s : {"x", "y"}) op1(g, string("expand ") + s + S(form), 0, IN { vector<X::var> n = xv({"b", "zz"}); return form ? x.expand(*M, X::var((string)s), n) : x.expand(*M, X::var((string)s), 2, &n[0]); }, TRI { vector<X::var> n = xv({"b", "zz"}); return form ? expand(*M, d, x, X::var((string)s), n) : expand(*M, d, x, X::var((string)s), 2, &n[0]); }, REF { Vars o({s}), n({"b", "zz"}); return ap_abstract1_expand(man, false, a, o.p[0], n.a(), 2); });
      op1(g, "fold " + S(form), 0, IN { vector<X::var> n = xv({"z", "y"}); return form ? x.fold(*M, n) : x.fold(*M, 2, &n[0]); }, TRI { vector<X::var> n = xv({"z", "y"}); return form ? fold(*M, d, x, n) : fold(*M, d, x, 2, &n[0]); }, REF { Vars n({"z", "y"}); return ap_abstract1_fold(man, false, a, n.a(), 2); }); } });
  R.group("query1", [](G& g) {
#define Q1(NAME, CXX, C) q1(g, NAME, [=](const XB& x, const XB& y) -> string { (void)y; return CXX; }, [=](A1* a, A1* b) -> string { (void)b; return C; })
    Q1("is_bottom", S(x.is_bottom(*M)), S(ap_abstract1_is_bottom(man, a))); Q1("is_top", S(x.is_top(*M)), S(ap_abstract1_is_top(man, a))); Q1("is_eq", S(x.is_eq(*M, y)), S(ap_abstract1_is_eq(man, a, b))); Q1("is_leq", S(x.is_leq(*M, y)), S(ap_abstract1_is_leq(man, a, b)));
    Q1("==", S(x == y), S(ap_abstract1_is_eq(man, a, b))); Q1("!=", S(x != y), S(!ap_abstract1_is_eq(man, a, b))); Q1("<=", S(x <= y), S(ap_abstract1_is_leq(man, a, b))); Q1(">=", S(x >= y), S(ap_abstract1_is_leq(man, b, a)));
    Q1("<", S(x < y), S(ap_abstract1_is_leq(man, a, b) && !ap_abstract1_is_leq(man, b, a))); Q1(">", S(x > y), S(ap_abstract1_is_leq(man, b, a) && !ap_abstract1_is_leq(man, a, b)));
    if (D.name.compare(0, 3, "ppl")) Q1("size", S(x.size(*M)), S(ap_abstract1_size(man, a))); Q1("environment", S(x.get_environment() == XE(0)), "1"); Q1("manager", S(x.get_manager().get_ap_manager_t() == man), "1");
    for (const char* n : VN) { Q1("bound var", iv(x.bound(*M, X::var((string)n))), ([&] { Vars v({n}); ap_interval_t* i = ap_abstract1_bound_variable(man, a, v.p[0]); string s = iv(i); ap_interval_free(i); return s; })()); Q1("unconstrained", S(x.is_variable_unconstrained(*M, X::var((string)n))), ([&] { Vars v({n}); return S(ap_abstract1_is_variable_unconstrained(man, a, v.p[0])); })());
      for (int lo = -1; lo < 3; lo += 2) for (int hi = 1; hi < 5; hi += 3) Q1("sat interval", S(x.sat(*M, X::var((string)n), X::interval(lo, hi))), ([&] { Vars v({n}); ap_interval_t* i = ap_interval_alloc(); ap_interval_set_int(i, lo, hi); bool s = ap_abstract1_sat_interval(man, a, v.p[0], i); ap_interval_free(i); return S(s); })()); }
    Q1("bound unknown", iv(x.bound(*M, X::var((string)"nope"))), ([&] { Vars v({"nope"}); ap_interval_t* i = ap_abstract1_bound_variable(man, a, v.p[0]); string s = iv(i); ap_interval_free(i); return s; })());
    for (auto& l : LX()) Q1("bound lin", iv(x.bound(*M, xlin1(l))), ([&] { ap_linexpr1_t e = clin1(l); ap_interval_t* i = ap_abstract1_bound_linexpr(man, a, &e); string s = iv(i); ap_interval_free(i); ap_linexpr1_clear(&e); return s; })());
    for (int k = 0; k < NT; k++) { Q1("bound tree", iv(x.bound(*M, xtree1(k))), ([&] { ap_texpr1_t* e = ctree1(k); ap_interval_t* i = ap_abstract1_bound_texpr(man, a, e); string s = iv(i); ap_interval_free(i); ap_texpr1_free(e); return s; })());
      for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP}) Q1("sat tcons", S(x.sat(*M, X::tcons1((ap_constyp_t)t, xtree1(k)))), ([&] { ap_tcons1_array_t c = cta1(k, t); ap_tcons1_t z = ap_tcons1_array_get(&c, 0); bool s = ap_abstract1_sat_tcons(man, a, &z); ap_tcons1_array_clear(&c); return S(s); })()); }
    for (auto& v : CA()) for (auto& c : v) Q1("sat lincons", S(x.sat(*M, X::lincons1((ap_constyp_t)c.t, xlin1(c.e)))), ([&] { ap_lincons1_array_t l = cla1({c}); ap_lincons1_t z = ap_lincons1_array_get(&l, 0); bool s = ap_abstract1_sat_lincons(man, a, &z); ap_lincons1_array_clear(&l); return S(s); })());
    Q1("to_box", ([&] { X::interval_array b = x.to_box(*M); string s; for (size_t i = 0; i < b.size(); i++) s += iv(b[i]); return s; })(), ([&] { ap_box1_t p = ap_abstract1_to_box(man, a); string s; if (p.p) for (int i = 0; i < N; i++) s += iv(p.p[i]); ap_box1_clear(&p); return s; })());
    Q1("to_lincons", la(&x.to_lincons_array(*M).get_ap_lincons1_array_t()->lincons0_array), ([&] { ap_lincons1_array_t l = ap_abstract1_to_lincons_array(man, a); string s = la(&l.lincons0_array); ap_lincons1_array_clear(&l); return s; })());
    Q1("to_tcons", ta(&x.to_tcons_array(*M).get_ap_tcons1_array_t()->tcons0_array), ([&] { ap_tcons1_array_t l = ap_abstract1_to_tcons_array(man, a); string s = ta(&l.tcons0_array); ap_tcons1_array_clear(&l); return s; })());
    Q1("to_generators", ga(&x.to_generator_array(*M).get_ap_generator1_array_t()->generator0_array), ([&] { ap_generator1_array_t l = ap_abstract1_to_generator_array(man, a); string s = ga(&l.generator0_array); ap_generator1_array_clear(&l); return s; })());
    Q1("print", slurp([&](FILE* o) { x.print(*M, o); }), slurp([&](FILE* o) { ap_abstract1_fprint(o, man, a); }));
    Q1("copy", ([&] { XB t(x); XB u(*M, y); u = t; return S(t == x && u == x); })(), "1"); }); }
