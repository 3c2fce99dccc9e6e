// level 1 part of mc_err: unknown variables, expressions outside the environment, incompatible environments
static vector<Env> EV; static vector<ap_environment_t*> PL; static ap_environment_t* pool(const Env& e) { for (size_t i = 0; i < EV.size(); i++) if (EV[i] == e) return PL[i]; abort(); }
static A1 val1(const Env& e, int k) { A1 r; r.abstract0 = value(D, k, nint(e), e.size() - nint(e)); r.env = ap_environment_copy(pool(e)); return r; }
static string txt1(A1& a) { string s; for (size_t i = 0; i < a.env->intdim + a.env->realdim; i++) s += string((char*)a.env->var_of_dim[i]) + (i < a.env->intdim ? ":i " : ":r "); return s + txt(a.abstract0, D); }
typedef std::function<A1(bool, A1*)> F1;
// bad: raises, result on one of the environments of es and containing the argument (same environment) or top
static void op1(G& g, const string& nm, const Env& e, vector<Env> es_, F1 f, bool bad, bool destr = true, vector<int> ks = {0, 1, 2}) { for (int k : ks) for (int d = 0; d < (destr ? 2 : 1); d++) if (g.next([&] { return es(e) + " " + nm + " v" + std::to_string(k) + (d ? " destructive" : ""); })) {
    A1 a = val1(e, k); A0* a0 = ap_abstract0_copy(man, a.abstract0); string before = txt1(a); clearx(man); A1 r = f(d, &a); g.state(); g.ok(std::hash<string>()(nm + es(e)) + k);
    if (bad) raised(g, 0); else quiet(g, nm); if (bad && (man->result.flag_exact || man->result.flag_best)) g.fail("flags1", "result flagged exact or best after an invalid call"); clearx(man);
    if (!r.abstract0 || !r.env) { g.fail("null1", "no result"); if (!d) ap_abstract1_clear(man, &a); ap_abstract0_free(man, a0); continue; }
    bool okenv = es_.empty(); for (auto& x : es_) if (same_env(r.env, x)) okenv = true; ap_dimension_t dm = ap_abstract0_dimension(man, r.abstract0);
    if (!okenv) g.fail("env1", "result on an unexpected environment: " + txt1(r)); else if (dm.intdim != r.env->intdim || dm.realdim != r.env->realdim) { g.fail("dim1", "the environment of the result has dimensions " + std::to_string(r.env->intdim) + "," + std::to_string(r.env->realdim) + " and its value " + std::to_string(dm.intdim) + "," + std::to_string(dm.realdim)); }
    else if (bad) { bool ok = istop(r.abstract0, man) || (same_env(r.env, e) && ap_abstract0_is_leq(man, a0, r.abstract0)); if (!ok) g.fail("default1", "unsound default " + txt1(r) + " for " + before); }
    if (!d) { if (!same_env(a.env, e) || !ap_abstract0_is_eq(man, a.abstract0, a0)) g.fail("args1", "argument changed from " + before + " to " + txt1(a)); ap_abstract1_clear(man, &a); } ap_abstract1_clear(man, &r); ap_abstract0_free(man, a0); quiet(g, "later call"); } }
static void q1(G& g, const string& nm, const Env& e, std::function<bool(A1*)> f, bool bad) { for (int k = 0; k < 3; k++) if (g.next([&] { return es(e) + " " + nm + " v" + std::to_string(k); })) { A1 a = val1(e, k), sv = ap_abstract1_copy(man, &a); clearx(man); bool ok = f(&a); g.state(); g.ok(std::hash<string>()(nm + es(e)) + k); if (bad) { raised(g, 0); if (!ok) g.fail("answer1", "the default answer is wrong"); } else quiet(g, nm); clearx(man); if (!ap_abstract1_is_eq(man, &a, &sv)) g.fail("args1", "argument changed"); ap_abstract1_clear(man, &sv); ap_abstract1_clear(man, &a); } }
static ap_linexpr1_t le(const Env& f) { ap_linexpr1_t e = ap_linexpr1_make(pool(f), AP_LINEXPR_SPARSE, f.size()); size_t i = 0; for (auto& x : f) { (void)x; e.linexpr0->p.linterm[i].dim = i; ap_coeff_set_scalar_int(&e.linexpr0->p.linterm[i].coeff, 1); i++; } return e; }
static ap_texpr1_t* te(const Env& f) { ap_linexpr1_t e = le(f); ap_texpr1_t* r = ap_texpr1_from_linexpr1(&e); ap_linexpr1_clear(&e); return r; }
static void g_subenv(G& g, const Env& e) { for (auto& f : EV) { bool bad = !sub(f, e); string s = " on " + es(f); Env F = f;
    for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ}) { auto ar = [F, t] { ap_lincons1_array_t z = ap_lincons1_array_make(pool(F), 1); ap_linexpr1_t x = le(F); z.lincons0_array.p[0] = ap_lincons0_make((ap_constyp_t)t, x.linexpr0, NULL); ap_environment_free(x.env); return z; }; auto tr = [F, t] { ap_tcons1_array_t z = ap_tcons1_array_make(pool(F), 1); ap_texpr1_t* x = te(F); z.tcons0_array.p[0] = ap_tcons0_make((ap_constyp_t)t, x->texpr0, NULL); ap_environment_free(x->env); free(x); return z; };
      op1(g, "meet_lincons" + string(CT[t]) + s, e, {e}, [=](bool d, A1* a) { auto z = ar(); A1 r = ap_abstract1_meet_lincons_array(man, d, a, &z); ap_lincons1_array_clear(&z); return r; }, bad); op1(g, "meet_tcons" + string(CT[t]) + s, e, {e}, [=](bool d, A1* a) { auto z = tr(); A1 r = ap_abstract1_meet_tcons_array(man, d, a, &z); ap_tcons1_array_clear(&z); return r; }, bad);
      if (bad) { op1(g, "of_lincons" + string(CT[t]) + s, e, {e}, [=](bool, A1* a) { auto z = ar(); A1 r = ap_abstract1_of_lincons_array(man, a->env, &z); ap_lincons1_array_clear(&z); return r; }, bad, false, {0}); op1(g, "of_tcons" + string(CT[t]) + s, e, {e}, [=](bool, A1* a) { auto z = tr(); A1 r = ap_abstract1_of_tcons_array(man, a->env, &z); ap_tcons1_array_clear(&z); return r; }, bad, false, {0}); }
      op1(g, "widening_threshold" + string(CT[t]) + s, e, {e}, [=](bool, A1* a) { auto z = ar(); A1 r = ap_abstract1_widening_threshold(man, a, a, &z); ap_lincons1_array_clear(&z); return r; }, bad, false);
      q1(g, "sat_lincons" + string(CT[t]) + s, e, [=](A1* a) { auto z = ar(); ap_lincons1_t c = ap_lincons1_array_get(&z, 0); bool r = ap_abstract1_sat_lincons(man, a, &c); ap_lincons1_array_clear(&z); return !r; }, bad); q1(g, "sat_tcons" + string(CT[t]) + s, e, [=](A1* a) { auto z = tr(); ap_tcons1_t c = ap_tcons1_array_get(&z, 0); bool r = ap_abstract1_sat_tcons(man, a, &c); ap_tcons1_array_clear(&z); return !r; }, bad); }
    op1(g, "add_ray" + s, e, {e}, [=](bool d, A1* a) { ap_generator1_array_t z = ap_generator1_array_make(pool(F), 1); ap_linexpr1_t x = le(F); ap_coeff_set_scalar_int(&x.linexpr0->cst, 0); z.generator0_array.p[0] = ap_generator0_make(F.empty() ? AP_GEN_LINE : AP_GEN_RAY, x.linexpr0); ap_environment_free(x.env); A1 r = ap_abstract1_add_ray_array(man, d, a, &z); ap_generator1_array_clear(&z); return r; }, bad);
    q1(g, "bound_linexpr" + s, e, [=](A1* a) { ap_linexpr1_t x = le(F); ap_interval_t* i = ap_abstract1_bound_linexpr(man, a, &x); bool ok = i && ap_interval_is_top(i); if (i) ap_interval_free(i); ap_linexpr1_clear(&x); return ok; }, bad); q1(g, "bound_texpr" + s, e, [=](A1* a) { auto* x = te(F); ap_interval_t* i = ap_abstract1_bound_texpr(man, a, x); bool ok = i && ap_interval_is_top(i); if (i) ap_interval_free(i); ap_texpr1_free(x); return ok; }, bad);
    if (bad) { q1(g, "quasilinear" + s, e, [=](A1* a) { ap_linexpr1_t x = le(F); ap_linexpr1_t r = ap_abstract1_quasilinear_of_intlinear(man, a, &x, AP_SCALAR_MPQ); bool ok = r.linexpr0 && r.linexpr0->size == 0 && r.linexpr0->cst.discr == AP_COEFF_INTERVAL && ap_interval_is_top(r.linexpr0->cst.val.interval) && r.env == a->env; ap_linexpr1_clear(&r); ap_linexpr1_clear(&x); return ok; }, bad); q1(g, "intlinear_of_tree" + s, e, [=](A1* a) { auto* x = te(F); ap_linexpr1_t r = ap_abstract1_intlinear_of_tree(man, a, x, AP_SCALAR_MPQ, false); bool ok = r.linexpr0 && r.linexpr0->size == 0 && r.linexpr0->cst.discr == AP_COEFF_INTERVAL && ap_interval_is_top(r.linexpr0->cst.val.interval) && r.env == a->env; ap_linexpr1_clear(&r); ap_texpr1_free(x); return ok; }, bad); }
    if (e.size()) for (int sub_ = 0; sub_ < 2; sub_++) { string v0 = e.begin()->first; string S = sub_ ? "substitute" : "assign"; op1(g, S + s, e, {e}, [=](bool d, A1* a) { ap_linexpr1_t x = le(F); Vars v({v0}); A1 r = (sub_ ? ap_abstract1_substitute_linexpr : ap_abstract1_assign_linexpr)(man, d, a, v.a()[0], &x, NULL); ap_linexpr1_clear(&x); return r; }, bad); op1(g, S + "_t" + s, e, {e}, [=](bool d, A1* a) { auto* x = te(F); Vars v({v0}); A1 r = (sub_ ? ap_abstract1_substitute_texpr : ap_abstract1_assign_texpr)(man, d, a, v.a()[0], x, NULL); ap_texpr1_free(x); return r; }, bad);
      if (e.size() > 1) { string v1 = std::next(e.begin())->first; for (int pos = 0; pos < 2; pos++) { op1(g, S + " two pos" + std::to_string(pos) + s, e, {e}, [=](bool d, A1* a) { Env ee = e; ap_linexpr1_t x[2] = {le(pos ? ee : F), le(pos ? F : ee)}; Vars v({v0, v1}); A1 r = (sub_ ? ap_abstract1_substitute_linexpr_array : ap_abstract1_assign_linexpr_array)(man, d, a, v.a(), x, 2, NULL); ap_linexpr1_clear(&x[0]); ap_linexpr1_clear(&x[1]); return r; }, bad); op1(g, S + "_t two pos" + std::to_string(pos) + s, e, {e}, [=](bool d, A1* a) { ap_texpr1_t *p = te(pos ? e : F), *q = te(pos ? F : e); ap_texpr1_t x[2] = {*p, *q}; Vars v({v0, v1}); A1 r = (sub_ ? ap_abstract1_substitute_texpr_array : ap_abstract1_assign_texpr_array)(man, d, a, v.a(), x, 2, NULL); ap_texpr1_free(p); ap_texpr1_free(q); return r; }, bad); } } }
  } }
static void g_vars(G& g, const Env& e) { vector<string> all = {NM[0], NM[1], NM[2], "zz"}; auto known = [&](const vector<string>& v) { for (auto& x : v) if (!e.count(x)) return false; return true; };
  for (auto& x : all) { bool bad = !e.count(x); q1(g, "bound_variable " + x, e, [=](A1* a) { Vars v({x}); ap_interval_t* i = ap_abstract1_bound_variable(man, a, v.a()[0]); bool ok = i && ap_interval_is_top(i); if (i) ap_interval_free(i); return ok; }, bad); q1(g, "sat_interval " + x, e, [=](A1* a) { Vars v({x}); ap_interval_t* i = ap_interval_alloc(); ap_interval_set_top(i); bool r = ap_abstract1_sat_interval(man, a, v.a()[0], i); ap_interval_free(i); return !r; }, bad); q1(g, "is_variable_unconstrained " + x, e, [=](A1* a) { Vars v({x}); return !ap_abstract1_is_variable_unconstrained(man, a, v.a()[0]); }, bad); }
  for (size_t len = 0; len <= 2; len++) for (auto& t : tuples(all, len)) { bool bad = !known(t); std::set<string> st(t.begin(), t.end()); bool dup = st.size() < t.size(); string s = " " + ns(t);
    if (!dup && len) { for (int pr = 0; pr < 2; pr++) op1(g, "forget" + s + (pr ? " project" : ""), e, {e}, [=](bool d, A1* a) { Vars v(t); return ap_abstract1_forget_array(man, d, a, v.a(), t.size(), pr); }, bad);
      for (int sb = 0; sb < 2; sb++) { string S = sb ? "substitute" : "assign"; op1(g, S + s, e, {e}, [=](bool d, A1* a) { ap_linexpr1_t x[2] = {le(e), le(e)}; Vars v(t); A1 r = (sb ? ap_abstract1_substitute_linexpr_array : ap_abstract1_assign_linexpr_array)(man, d, a, v.a(), x, t.size(), NULL); ap_linexpr1_clear(&x[0]); ap_linexpr1_clear(&x[1]); return r; }, bad); op1(g, S + "_t" + s, e, {e}, [=](bool d, A1* a) { ap_texpr1_t *p = te(e), *q = te(e); ap_texpr1_t x[2] = {*p, *q}; Vars v(t); A1 r = (sb ? ap_abstract1_substitute_texpr_array : ap_abstract1_assign_texpr_array)(man, d, a, v.a(), x, t.size(), NULL); ap_texpr1_free(p); ap_texpr1_free(q); return r; }, bad); }
      op1(g, "of_box" + s, e, {e}, [=](bool, A1* a) { Vars v(t); ap_interval_t** b = ap_interval_array_alloc(t.size()); for (size_t i = 0; i < t.size(); i++) ap_interval_set_top(b[i]); A1 r = ap_abstract1_of_box(man, a->env, v.a(), b, t.size()); ap_interval_array_free(b, t.size()); return r; }, bad, false, {0}); }
    // fold: unknown, repeated or mixed variables
    { bool mixed = false; if (!bad) for (auto& x : t) if (e.at(x) != e.at(t[0])) mixed = true; bool b = len == 0 || bad || dup || mixed; vector<Env> ex; if (!b) { Env r = e; for (size_t i = 1; i < t.size(); i++) r.erase(t[i]); ex = {r}; } op1(g, "fold" + s, e, ex, [=](bool d, A1* a) { Vars v(t); return ap_abstract1_fold(man, d, a, v.a(), t.size()); }, b); }
    // expand: from every variable to the given new ones
    if (len) for (auto& x : all) { bool b = !e.count(x) || dup; for (auto& y : t) if (e.count(y)) b = true; vector<Env> ex; if (!b) { Env r = e; for (auto& y : t) r[y] = e.at(x); if (r.size() > 4) continue; ex = {r}; } else ex = {e}; op1(g, "expand " + x + " to" + s, e, ex, [=](bool d, A1* a) { Vars v(t), w({x}); return ap_abstract1_expand(man, d, a, w.a()[0], v.a(), t.size()); }, b); }
    // rename: unknown sources, clashing targets
    if (len && !dup) for (auto& u : tuples(all, len)) { std::set<string> su(u.begin(), u.end()); bool b = bad || su.size() < u.size(); Env r = e; if (!bad) { for (auto& x : t) r.erase(x); for (size_t i = 0; i < len; i++) if (r.count(u[i])) b = true; } vector<Env> ex{e}; if (!b) { for (size_t i = 0; i < len; i++) r[u[i]] = e.at(t[i]); ex = {r}; } op1(g, "rename" + s + " to " + ns(u), e, ex, [=](bool d, A1* a) { Vars v(t), w(u); return ap_abstract1_rename_array(man, d, a, v.a(), w.a(), t.size()); }, b); }
  }
  for (auto& t : tuples(all, 3)) { if (!known(t)) continue; bool b = false; std::set<string> st(t.begin(), t.end()); if (st.size() < 3) b = true; for (auto& x : t) if (e.at(x) != e.at(t[0])) b = true; vector<Env> ex; if (!b) { Env r = e; r.erase(t[1]); r.erase(t[2]); ex = {r}; } op1(g, "fold " + ns(t), e, ex, [=](bool d, A1* a) { Vars v(t); return ap_abstract1_fold(man, d, a, v.a(), t.size()); }, b); } }
static void g_envs(G& g, const Env& e) { for (auto& f : EV) { Env F = f; bool diff = e != f; for (int k2 = 0; k2 < 3; k2++) { string s = " with " + es(f) + " v" + std::to_string(k2); auto w = [F, k2](std::function<A1(A1*)> h) { A1 y = val1(F, k2), sv = ap_abstract1_copy(man, &y); clearx(man); A1 r = h(&y); bool fe = man->result.flag_exact, fb = man->result.flag_best; ap_exc_t ex = man->result.exn; bool same = ap_abstract1_is_eq(man, &y, &sv); ap_abstract1_clear(man, &sv); man->result.exn = ex; if (!same) { fprintf(stderr, "second argument changed\n"); abort(); } ap_abstract1_clear(man, &y); man->result.flag_exact = fe; man->result.flag_best = fb; return r; };
      if (diff) { op1(g, "meet" + s, e, {e}, [=](bool d, A1* a) { return w([=](A1* y) { return ap_abstract1_meet(man, d, a, y); }); }, true); op1(g, "join" + s, e, {e}, [=](bool d, A1* a) { return w([=](A1* y) { return ap_abstract1_join(man, d, a, y); }); }, true); op1(g, "widening" + s, e, {e}, [=](bool, A1* a) { return w([=](A1* y) { return ap_abstract1_widening(man, a, y); }); }, true, false); op1(g, "widening_threshold" + s, e, {e}, [=](bool, A1* a) { return w([=](A1* y) { ap_lincons1_array_t z = ap_lincons1_array_make(a->env, 0); A1 r = ap_abstract1_widening_threshold(man, a, y, &z); ap_lincons1_array_clear(&z); return r; }); }, true, false);
        op1(g, "meet_array" + s, e, {e}, [=](bool, A1* a) { return w([=](A1* y) { A1 t[3] = {*a, *a, *y}; return ap_abstract1_meet_array(man, t, 3); }); }, true, false); op1(g, "join_array" + s, e, {e}, [=](bool, A1* a) { return w([=](A1* y) { A1 t[2] = {*a, *y}; return ap_abstract1_join_array(man, t, 2); }); }, true, false);
        if (e.size()) { string v0 = e.begin()->first; for (int sb = 0; sb < 2; sb++) { op1(g, string(sb ? "substitute" : "assign") + " dest" + s, e, {e}, [=](bool d, A1* a) { return w([=](A1* y) { ap_linexpr1_t x = le(e); Vars v({v0}); A1 r = (sb ? ap_abstract1_substitute_linexpr : ap_abstract1_assign_linexpr)(man, d, a, v.a()[0], &x, y); ap_linexpr1_clear(&x); return r; }); }, true); op1(g, string(sb ? "substitute_t" : "assign_t") + " dest" + s, e, {e}, [=](bool d, A1* a) { return w([=](A1* y) { auto* x = te(e); Vars v({v0}); A1 r = (sb ? ap_abstract1_substitute_texpr : ap_abstract1_assign_texpr)(man, d, a, v.a()[0], x, y); ap_texpr1_free(x); return r; }); }, true); } }
        q1(g, "is_leq" + s, e, [=](A1* a) { A1 y = val1(F, k2); clearx(man); bool r = ap_abstract1_is_leq(man, a, &y); ap_abstract1_clear(man, &y); return !r; }, true); q1(g, "is_eq" + s, e, [=](A1* a) { A1 y = val1(F, k2); clearx(man); bool r = ap_abstract1_is_eq(man, a, &y); ap_abstract1_clear(man, &y); return !r; }, true); }
      bool inc = !compat(e, f); vector<Env> ex{e}; if (!inc) ex = {uni(e, f)}; op1(g, "unify" + s, e, ex, [=](bool d, A1* a) { return w([=](A1* y) { return ap_abstract1_unify(man, d, a, y); }); }, inc); }
    bool inc = !compat(e, f); for (int pr = 0; pr < 2; pr++) op1(g, "change_environment to " + es(f) + (pr ? " project" : ""), e, {f}, [=](bool d, A1* a) { return ap_abstract1_change_environment(man, d, a, pool(F), pr); }, inc); } }
static void level1(Runner& R) { EV = envs(3); for (auto& e : EV) PL.push_back(mk(e)); for (auto& e : EV) { R.group("subenv " + es(e), [=](G& g) { g_subenv(g, e); }); R.group("variables " + es(e), [=](G& g) { g_vars(g, e); }); R.group("environments " + es(e), [=](G& g) { g_envs(g, e); }); } }
