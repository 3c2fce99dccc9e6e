// values: scalars, intervals, coefficients, dimension changes, expressions, environments against the C functions
static string cs(const X::scalar& x) { return sc(x.get_ap_scalar_t()); }
static string cc(const X::coeff& x) { return co(x.get_ap_coeff_t()); }
static string dcs(const ap_dimchange_t* c) { if (!c) return "null"; string s = S(c->intdim) + "+" + S(c->realdim) + ":"; for (size_t i = 0; i < c->intdim + c->realdim; i++) s += S(c->dim[i]) + ","; return s; }
static string dps(const ap_dimperm_t* c) { string s; for (size_t i = 0; i < c->size; i++) s += S(c->dim[i]) + ","; return s; }
static string evs(const ap_environment_t* e) { if (!e) return "null"; string s; for (size_t i = 0; i < e->intdim + e->realdim; i++) s += string(i < e->intdim ? "i" : "r") + (char*)e->var_of_dim[i] + " "; return s; }
template <class T> static string os(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class F> static string tr(F f) { try { return f(); } catch (std::exception& e) { return "throws"; } }
#define CHK(NAME, CXX, C) do { string _a = tr([&]() -> string { return CXX; }), _b = (C); h = h * 31 + std::hash<string>()(_b); if (_a != _b) g.fail("value", string(NAME) + ": " + _a + " instead of " + _b); } while (0)
struct Sv { int kind; long a, b; };   // 0 int, 1 fraction, 2 double, 3 infinity, 4 mpfr
static const vector<Sv>& SV() { static vector<Sv> v = {{0, 0, 0}, {0, 1, 0}, {0, -3, 0}, {0, 2147483647L, 0}, {0, 5000000000L, 0}, {1, 1, 3}, {1, -7, 2}, {1, 3, 1}, {2, 3, 2}, {2, -1, 1}, {2, 1, 1}, {2, 0, 1}, {3, 1, 0}, {3, -1, 0}, {4, 1, 4}, {4, -3, 1}}; return v; }
static X::scalar xs(const Sv& v) { switch (v.kind) { case 0: return X::scalar(v.a); case 1: return X::scalar(X::frac(v.a, v.b)); case 2: return X::scalar((double)v.a / v.b); case 3: return X::scalar(X::infty(v.a)); default: { mpfr_t m; mpfr_init_set_d(m, (double)v.a / v.b, GMP_RNDN); X::scalar r(m); mpfr_clear(m); return r; } } }
static void csc(ap_scalar_t* s, const Sv& v) { switch (v.kind) { case 0: ap_scalar_set_int(s, v.a); break; case 1: ap_scalar_set_frac(s, v.a, v.b); break; case 2: ap_scalar_set_double(s, (double)v.a / v.b); break; case 3: ap_scalar_set_infty(s, v.a); break; default: { mpfr_t m; mpfr_init_set_d(m, (double)v.a / v.b, GMP_RNDN); ap_scalar_set_mpfr(s, m); mpfr_clear(m); } } }
struct Cs { ap_scalar_t* s; Cs(const Sv& v) { s = ap_scalar_alloc(); if (v.kind == 0 || v.kind == 1) ap_scalar_reinit(s, AP_SCALAR_MPQ); csc(s, v); } ~Cs() { ap_scalar_free(s); } };
static int sg(int x) { return x < 0 ? -1 : x > 0; }
struct Ci { ap_interval_t* i; Ci() { i = ap_interval_alloc(); } ~Ci() { ap_interval_free(i); } };
struct Iv { Sv lo, hi; };
static const vector<Iv>& IV() { static vector<Iv> v; if (v.empty()) { for (int a : {0, 1, 2, 5, 6, 8, 13, 14}) for (int b : {0, 1, 5, 8, 12, 14}) v.push_back({SV()[a], SV()[b]}); } return v; }
static X::interval xi(const Iv& v) { return X::interval(xs(v.lo), xs(v.hi)); }
static void civ(ap_interval_t* i, const Iv& v) { Cs a(v.lo), b(v.hi); ap_interval_set_scalar(i, a.s, b.s); }
struct Cc { ap_coeff_t c; Cc(int k) { ap_coeff_init(&c, AP_COEFF_SCALAR); int n = SV().size(); if (k < n) { Cs s(SV()[k]); ap_coeff_set_scalar(&c, s.s); } else { Ci i; civ(i.i, IV()[(k - n) * 5 % IV().size()]); ap_coeff_set_interval(&c, i.i); } } ~Cc() { ap_coeff_clear(&c); } };
static X::coeff xc(int k) { int n = SV().size(); if (k < n) return X::coeff(xs(SV()[k])); return X::coeff(xi(IV()[(k - n) * 5 % IV().size()])); }
static const int NC = 24;
static const vector<vector<X::var>>& VS() { static vector<vector<X::var>> v = {xv({}), xv({"x"}), xv({"y"}), xv({"w", "a"}), xv({"x", "z"}), xv({"b", "y", "c"})}; return v; }
static vector<ap_var_t> cv(const vector<X::var>& v) { vector<ap_var_t> r; for (auto& x : v) r.push_back(x.get_ap_var_t()); r.push_back(NULL); return r; }
static void values(Runner& R) {
  R.group("scalar", [](G& g) { for (size_t i = 0; i < SV().size(); i++) for (size_t j = 0; j < SV().size(); j++) { if (!g.next([&] { return "scalars " + S(i) + "," + S(j); })) continue; size_t h = 0;
      X::scalar x = xs(SV()[i]), y = xs(SV()[j]); Cs a(SV()[i]), b(SV()[j]);
      CHK("construct", cs(x), sc(a.s)); CHK("copy", cs(X::scalar(x)), sc(a.s));
      CHK("cmp", S(sg(cmp(x, y))), S(sg(ap_scalar_cmp(a.s, b.s)))); int c = ap_scalar_cmp(a.s, b.s); CHK("<", S(x < y), S(c < 0)); CHK("<=", S(x <= y), S(c <= 0)); CHK(">", S(x > y), S(c > 0)); CHK(">=", S(x >= y), S(c >= 0)); CHK("==", S(x == y), S(c == 0)); CHK("!=", S(x != y), S(c != 0));
      for (int n = -3; n <= 3; n += 2) { int e = sg(ap_scalar_cmp_int(a.s, n)); CHK("cmp int", S(sg(cmp(x, n))), S(e)); CHK("int cmp", S(sg(cmp(n, x))), S(-e)); CHK("< int", S(x < n), S(e < 0)); CHK("<= int", S(x <= n), S(e <= 0)); CHK("> int", S(x > n), S(e > 0)); CHK(">= int", S(x >= n), S(e >= 0)); CHK("== int", S(x == n), S(e == 0)); CHK("!= int", S(x != n), S(e != 0));
        CHK("int <", S(n < x), S(e > 0)); CHK("int <=", S(n <= x), S(e >= 0)); CHK("int >", S(n > x), S(e < 0)); CHK("int >=", S(n >= x), S(e <= 0)); CHK("int ==", S(n == x), S(e == 0)); CHK("int !=", S(n != x), S(e != 0)); }
      CHK("sgn", S(x.sgn()), S(ap_scalar_sgn(a.s))); CHK("is_infty", S(x.is_infty()), S(ap_scalar_infty(a.s))); CHK("hash", S(x.hash()), S(ap_scalar_hash(a.s)));
      { Cs n(SV()[i]); ap_scalar_neg(n.s, a.s); CHK("unary -", cs(-x), sc(n.s)); CHK("neg", ([&] { X::scalar t(x); t.neg(); return cs(t); })(), sc(n.s)); if (ap_scalar_sgn(a.s)) { ap_scalar_inv(n.s, a.s); CHK("~", cs(~x), sc(n.s)); CHK("inv", ([&] { X::scalar t(x); t.inv(); return cs(t); })(), sc(n.s)); } CHK("unchanged", cs(x), sc(a.s)); }
      CHK("=", ([&] { X::scalar t(x); t = y; return cs(t); })(), sc(b.s)); CHK("self =", ([&] { X::scalar t(x); X::scalar& u = t; t = u; return cs(t); })(), sc(a.s)); CHK("swap", ([&] { X::scalar t(x), u(y); swap(t, u); return cs(t) + cs(u); })(), sc(b.s) + sc(a.s));
      const Sv& v = SV()[j]; Cs n(SV()[i]); csc(n.s, v); CHK("= value", ([&] { X::scalar t(x); switch (v.kind) { case 0: t = v.a; break; case 1: t = X::frac(v.a, v.b); break; case 2: t = (double)v.a / v.b; break; case 3: t = X::infty(v.a); break; default: { mpfr_t m; mpfr_init_set_d(m, (double)v.a / v.b, GMP_RNDN); t = m; mpfr_clear(m); } } return cs(t); })(), sc(n.s));
      for (int rd : {GMP_RNDN, GMP_RNDU, GMP_RNDD}) { double d = 0; int o = ap_double_set_scalar(&d, a.s, (mp_rnd_t)rd); X::scalar::order c1; double e = x.to_double((mp_rnd_t)rd, c1); if (e != d || (int)c1 != sg(o)) g.fail("value", "to_double: " + std::to_string(e) + "/" + S(c1) + " instead of " + std::to_string(d) + "/" + S(o)); if (SV()[i].kind != 3) { Q q; int p = ap_mpq_set_scalar(q.get_mpq_t(), a.s, (mp_rnd_t)rd); mpq_class m = x.to_mpq((mp_rnd_t)rd, c1); if (m != q || (int)c1 != sg(p)) g.fail("value", "to_mpq differs"); } }
      CHK("discr", S(x.get_discr()), S(a.s->discr)); CHK("get_double", std::to_string(x.get_double()), a.s->discr == AP_SCALAR_DOUBLE ? std::to_string(a.s->val.dbl) : "throws"); CHK("get_mpq", ([&] { Q q = x.get_mpq(); return string(q.get_den() == 0 ? "inf" : q.get_str()); })(), a.s->discr == AP_SCALAR_MPQ ? (Q(a.s->val.mpq).get_str()) : "throws");
      CHK("print", slurp([&](FILE* o) { x.print(o); }), slurp([&](FILE* o) { ap_scalar_fprint(o, a.s); })); g.ok(h); } });
  R.group("interval", [](G& g) { for (size_t i = 0; i < IV().size(); i++) for (size_t j = 0; j < IV().size(); j++) { if (!g.next([&] { return "intervals " + S(i) + "," + S(j); })) continue; size_t h = 0;
      X::interval x = xi(IV()[i]), y = xi(IV()[j]); Ci a, b; civ(a.i, IV()[i]); civ(b.i, IV()[j]); CHK("construct", iv(x), iv(a.i)); CHK("copy", iv(X::interval(x)), iv(a.i)); CHK("top", S(x.is_top()), S(ap_interval_is_top(a.i))); CHK("bottom", S(x.is_bottom()), S(ap_interval_is_bottom(a.i)));
      int c = ap_interval_cmp(a.i, b.i); CHK("cmp", S(cmp(x, y)), S(c)); CHK("<=", S(x <= y), S(ap_interval_is_leq(a.i, b.i))); CHK(">=", S(x >= y), S(ap_interval_is_leq(b.i, a.i))); CHK("<", S(x < y), S(c == -1)); CHK(">", S(x > y), S(c == 1)); CHK("==", S(x == y), S(ap_interval_equal(a.i, b.i))); CHK("!=", S(x != y), S(!ap_interval_equal(a.i, b.i)));
      { Ci n; ap_interval_neg(n.i, a.i); CHK("unary -", iv(-x), iv(n.i)); CHK("neg", ([&] { X::interval t(x); t.neg(); return iv(t); })(), iv(n.i)); CHK("unchanged", iv(x), iv(a.i)); } CHK("hash", S(x.hash()), S(ap_interval_hash(a.i)));
      CHK("=", ([&] { X::interval t(x); t = y; return iv(t); })(), iv(b.i)); CHK("set", ([&] { X::interval t(x); t.set(y); return iv(t); })(), iv(b.i)); CHK("set scalars", ([&] { X::interval t(x); t.set(xs(IV()[j].lo), xs(IV()[j].hi)); return iv(t); })(), iv(b.i)); CHK("swap", ([&] { X::interval t(x), u(y); swap(t, u); return iv(t) + iv(u); })(), iv(b.i) + iv(a.i));
      CHK("= top", ([&] { X::interval t(x); t = X::top(); return S(t.is_top()); })(), "1"); CHK("= bottom", ([&] { X::interval t(x); t.set(X::bottom()); return S(t.is_bottom()); })(), "1"); CHK("bounds", cs(x.get_inf()) + cs(x.get_sup()), sc(a.i->inf) + sc(a.i->sup));
      CHK("print", slurp([&](FILE* o) { x.print(o); }), slurp([&](FILE* o) { ap_interval_fprint(o, a.i); }));
      CHK("array", ([&] { X::interval_array v(2); v[0] = x; v[1] = y; X::interval_array u(v), w(3); w = u; vector<X::interval> z = w; X::interval_array q(z); X::interval_array r(2, &z[0]); r = z; return S(w.size()) + iv(w[0]) + iv(q[1]) + iv(r.get(0)); })(), "2" + iv(a.i) + iv(b.i) + iv(a.i)); CHK("array range", ([&] { X::interval_array v(2); return iv(v.get(2)); })(), "throws");
      const Iv& v = IV()[j]; if (v.lo.kind == v.hi.kind) CHK("set values", ([&] { X::interval t(x), u(x); switch (v.lo.kind) { case 0: t.set(v.lo.a, v.hi.a); u = X::interval(v.lo.a, v.hi.a); break; case 1: t.set(X::frac(v.lo.a, v.lo.b), X::frac(v.hi.a, v.hi.b)); u = X::interval(X::frac(v.lo.a, v.lo.b), X::frac(v.hi.a, v.hi.b)); break; case 2: t.set((double)v.lo.a / v.lo.b, (double)v.hi.a / v.hi.b); u = X::interval((double)v.lo.a / v.lo.b, (double)v.hi.a / v.hi.b); break; default: t = u = y; } if (iv(t) != iv(u)) return string("set and construct differ"); return iv(t); })(), iv(b.i)); g.ok(h); } });
  R.group("coeff", [](G& g) { for (int i = 0; i < NC; i++) for (int j = 0; j < NC; j++) { if (!g.next([&] { return "coefficients " + S(i) + "," + S(j); })) continue; size_t h = 0;
      X::coeff x = xc(i), y = xc(j); Cc a(i), b(j); CHK("construct", cc(x), co(&a.c)); CHK("copy", cc(X::coeff(x)), co(&a.c)); CHK("cmp", S(cmp(x, y)), S(ap_coeff_cmp(&a.c, &b.c))); CHK("==", S(x == y), S(ap_coeff_equal(&a.c, &b.c))); CHK("!=", S(x != y), S(!ap_coeff_equal(&a.c, &b.c))); CHK("zero", S(x.is_zero()), S(ap_coeff_zero(&a.c))); CHK("discr", S(x.get_discr()), S(a.c.discr)); CHK("hash", S(x.hash()), S(ap_coeff_hash(&a.c)));
      { Cc n(j); ap_coeff_neg(&n.c, &a.c); CHK("unary -", cc(-x), co(&n.c)); CHK("neg", ([&] { X::coeff t(x); t.neg(); return cc(t); })(), co(&n.c)); CHK("unchanged", cc(x), co(&a.c)); }
      CHK("=", ([&] { X::coeff t(x); t = y; return cc(t); })(), co(&b.c)); CHK("set", ([&] { X::coeff t(x); t.set(y); return cc(t); })(), co(&b.c)); CHK("swap", ([&] { X::coeff t(x), u(y); swap(t, u); return cc(t) + cc(u); })(), co(&b.c) + co(&a.c)); CHK("scalar", cs(x.get_scalar()), a.c.discr == AP_COEFF_SCALAR ? sc(a.c.val.scalar) : "throws"); CHK("interval", iv(x.get_interval()), a.c.discr == AP_COEFF_INTERVAL ? iv(a.c.val.interval) : "throws");
      CHK("print", slurp([&](FILE* o) { x.print(o); }), slurp([&](FILE* o) { ap_coeff_fprint(o, &a.c); })); g.ok(h); } });
  R.group("dimension", [](G& g) { vector<vector<ap_dim_t>> P = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; for (auto& p : P) for (auto& q : P) { if (!g.next([&] { return "permutations " + S(p[0]) + S(p[1]) + S(p[2]) + " " + S(q[0]) + S(q[1]) + S(q[2]); })) continue; size_t h = 0;
      X::dimperm x(p), y(3, &q[0]); ap_dimperm_t a = {&p[0], 3}, b = {&q[0], 3}; ap_dim_t r0[3]; ap_dimperm_t r = {r0, 3}; CHK("construct", dps(x.get_ap_dimperm_t()) + dps(y.get_ap_dimperm_t()), dps(&a) + dps(&b)); ap_dimperm_compose(&r, &a, &b); CHK("*", dps((x * y).get_ap_dimperm_t()), dps(&r)); CHK("*=", ([&] { X::dimperm t(x); t *= y; return dps(t.get_ap_dimperm_t()); })(), dps(&r)); CHK("compose", dps(X::dimperm(x, y).get_ap_dimperm_t()), dps(&r));
      ap_dimperm_compose(&r, &a, &a); CHK("*= self", ([&] { X::dimperm t(x); t *= t; return dps(t.get_ap_dimperm_t()); })(), dps(&r)); ap_dimperm_invert(&r, &a); CHK("-", dps((-x).get_ap_dimperm_t()), dps(&r)); CHK("invert", ([&] { X::dimperm t(x); t.invert(); return dps(t.get_ap_dimperm_t()); })(), dps(&r)); CHK("inverse copy", dps(X::dimperm(x, true).get_ap_dimperm_t()), dps(&r));
      CHK("=", ([&] { X::dimperm t(5); t = y; X::dimperm u(2); u = q; X::dimperm w(3); w = (const ap_dim_t*)&q[0]; return dps(t.get_ap_dimperm_t()) + dps(u.get_ap_dimperm_t()) + dps(w.get_ap_dimperm_t()); })(), dps(&b) + dps(&b) + dps(&b)); CHK("identity", ([&] { X::dimperm t(x); t = X::id(4); return dps(t.get_ap_dimperm_t()) + dps(X::dimperm(X::id(2)).get_ap_dimperm_t()); })(), "0,1,2,3,0,1,"); CHK("access", S(x[1]) + S(x.get(2)) + S(x.size()), S(p[1]) + S(p[2]) + "3"); CHK("range", S(x.get(3)), "throws"); CHK("sizes", dps((x * X::dimperm(2)).get_ap_dimperm_t()), "throws"); g.ok(h); }
    for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { if (!g.next([&] { return "changes " + S(k) + "," + S(l); })) continue; size_t h = 0; ap_dimchange_t *a = DC(k), *b = DC(l); X::dimchange x(a->intdim, a->realdim, a->dim), y = xdc(DC(l)); CHK("construct", dcs(x.get_ap_dimchange_t()), dcs(a)); CHK("copy", dcs(X::dimchange(x).get_ap_dimchange_t()), dcs(a)); CHK("=", ([&] { X::dimchange t(x); t = y; return dcs(t.get_ap_dimchange_t()); })(), dcs(b)); CHK("access", S(x[0]) + S(x.get_intdim()) + S(x.get_realdim()), S(a->dim[0]) + S(a->intdim) + S(a->realdim)); CHK("range", S(x.get(9)), "throws");
      ap_dimchange_add_invert(a); CHK("-", dcs((-x).get_ap_dimchange_t()), dcs(a)); CHK("inverse copy", dcs(X::dimchange(x, true).get_ap_dimchange_t()), dcs(a)); CHK("add_invert", ([&] { X::dimchange t(x); t.add_invert(); return dcs(t.get_ap_dimchange_t()); })(), dcs(a)); ap_dimchange_free(a); ap_dimchange_free(b); g.ok(h); } });
  R.group("linexpr", [](G& g) { vector<vector<ap_dim_t>> P = {{0, 1, 2}, {1, 2, 0}, {2, 1, 0}}; size_t n = LX().size(); for (size_t i = 0; i < n; i++) for (int sp = 0; sp < 3; sp++) for (size_t j = 0; j < n; j++) for (int sq = 0; sq < 2; sq++) { if (!g.next([&] { return string(sp > 1 ? "padded " : sp ? "sparse " : "dense ") + LX()[i].str() + (sq ? " sparse " : " dense ") + LX()[j].str(); })) continue; size_t h = 0;
      ap_linexpr0_t *a = mk_linexpr(LX()[i], sp), *b = mk_linexpr(LX()[j], sq); if (sp == 2) ap_linexpr0_realloc(a, a->size + 2); X::linexpr0 x = (X::linexpr0&)*a, y = (X::linexpr0&)*b; auto xl = [](const X::linexpr0& e) { return lx((ap_linexpr0_t*)e.get_ap_linexpr0_t()); };
      CHK("copy", xl(x), lx(a)); CHK("=", ([&] { X::linexpr0 t(x); t = y; return xl(t); })(), lx(b)); CHK("compare", S(sg(compare(x, y))), S(sg(ap_linexpr0_compare(a, b)))); CHK("equal", S(equal(x, y)), S(ap_linexpr0_equal(a, b))); CHK("hash", S(x.hash()), S(ap_linexpr0_hash(a))); CHK("size", S(x.size()), S(ap_linexpr0_size(a)));
      for (int d = 0; d < 4; d++) { ap_linexpr0_t* t0 = ap_linexpr0_copy(a); ap_coeff_t* c = ap_linexpr0_coeffref(t0, d); string w = c ? co(c) : "throws"; CHK("[]", ([&] { X::linexpr0 t(x); return cc(t[d]); })(), w); ap_linexpr0_free(t0); } CHK("cst", cc(x.get_cst()), co(&a->cst));
      CHK("types", S(x.is_integer(1)) + S(x.is_real(1)) + S(x.get_type()) + S(x.is_linear()) + S(x.is_quasilinear()), S(ap_linexpr0_is_integer(a, 1)) + S(ap_linexpr0_is_real(a, 1)) + S(ap_linexpr0_type(a)) + S(ap_linexpr0_is_linear(a)) + S(ap_linexpr0_is_quasilinear(a)));
      { string w; size_t k; ap_dim_t d; ap_coeff_t* c; ap_linexpr0_ForeachLinterm(a, k, d, c) w += S(d) + co(c); CHK("iterate", ([&] { string r; for (X::linexpr0::const_iterator it = ((const X::linexpr0&)x).begin(); it.valid(); ++it) r += S(it.get_dim()) + cc(it.get_coeff()); return r; })(), w); CHK("iterate mutable", ([&] { string r; for (X::linexpr0::iterator it = x.begin(); it.valid(); ++it) r += S(it.get_dim()) + cc(it.get_coeff()); return r; })(), w); }
      for (int k = 0; k < 3; k++) { ap_dimchange_t* c = DC(k); ap_linexpr0_t* t = ap_linexpr0_add_dimensions(a, c); CHK("add_dimensions", ([&] { X::linexpr0 t(x); t.add_dimensions(xdc(DC(k))); return xl(t); })(), lx(t)); CHK("with added", xl(X::linexpr0(x, xdc(DC(k)))), lx(t)); ap_linexpr0_free(t); ap_dimchange_free(c); ap_dimperm_t p = {&P[k][0], 3}; t = ap_linexpr0_permute_dimensions(a, &p); CHK("permute", ([&] { X::linexpr0 t(x); t.permute_dimensions(X::dimperm(P[k])); return xl(t); })(), lx(t)); CHK("permuted", xl(X::linexpr0(x, X::dimperm(P[k]))), lx(t)); ap_linexpr0_free(t); }
      { ap_linexpr0_t* t = ap_linexpr0_copy(a); ap_linexpr0_minimize(t); CHK("minimize", ([&] { X::linexpr0 t(x); t.minimize(); return xl(t); })(), lx(t)); ap_linexpr0_free(t); }
      CHK("print", slurp([&](FILE* o) { x.print(NULL, o); }), slurp([&](FILE* o) { ap_linexpr0_fprint(o, a, NULL); })); { X::linexpr1 u(XE(0), x); ap_linexpr1_t v = {a, ENV(0)}; for (const char* nm : {"x", "y", "z", "nope"}) { ap_linexpr0_t* a2 = ap_linexpr0_copy(a); ap_linexpr1_t v2 = {a2, ENV(0)}; Vars vv({nm}); ap_coeff_t* c = ap_linexpr1_coeffref(&v2, vv.p[0]); string w = c ? co(c) : "throws"; CHK("[var]", ([&] { X::linexpr1 t(u); return cc(t[X::var((string)nm)]); })(), w); ap_linexpr0_free(a2); }
        ap_linexpr1_t e; if (!ap_linexpr1_extend_environment(&e, &v, ENV(1))) { CHK("extend", ([&] { X::linexpr1 t(u, XE(1)); return lx((ap_linexpr0_t*)t.get_ap_linexpr1_t()->linexpr0); })(), lx(e.linexpr0)); CHK("extend in place", ([&] { X::linexpr1 t(u); t.extend_environment(XE(1)); return lx((ap_linexpr0_t*)t.get_ap_linexpr1_t()->linexpr0); })(), lx(e.linexpr0)); ap_linexpr1_clear(&e); } CHK("extend invalid", ([&] { X::linexpr1 t(u, XE(2)); return string("ok"); })(), "throws"); CHK("print1", slurp([&](FILE* o) { u.print(o); }), slurp([&](FILE* o) { ap_linexpr1_fprint(o, &v); })); }
      ap_linexpr0_free(a); ap_linexpr0_free(b); g.ok(h); } });
  R.group("texpr", [](G& g) { vector<vector<ap_dim_t>> P = {{0, 1, 2}, {1, 2, 0}, {2, 1, 0}}; using namespace apron; typedef X::texpr0::builder B; for (int i = 0; i < NT; i++) for (int j = 0; j < NT; j++) { if (!g.next([&] { return "trees " + S(i) + "," + S(j); })) continue; size_t h = 0;
      ap_texpr0_t *a = tree(i), *b = tree(j); X::texpr0 x = xtree(i), y = xtree(j); auto xt = [](const X::texpr0& e) { return te((ap_texpr0_t*)e.get_ap_texpr0_t()); }; CHK("build", xt(x), te(a)); CHK("copy", xt(X::texpr0(x)), te(a)); CHK("=", ([&] { X::texpr0 t(x); t = y; return xt(t); })(), te(b)); CHK("equal", S(x.equal(y)), S(ap_texpr0_equal(a, b))); CHK("hash", S(x.hash() == y.hash()), S(ap_texpr0_hash(a) == ap_texpr0_hash(b)));
      CHK("measures", S(x.depth()) + "," + S(x.size()) + "," + S(x.max_dim()) + "," + S(x.is_zero()), S(ap_texpr0_depth(a)) + "," + S(ap_texpr0_size(a)) + "," + S(ap_texpr0_max_dim(a)) + ",0"); for (int d = 0; d < 4; d++) CHK("has_dim", S(x.has_dim(d)), S(ap_texpr0_has_dim(a, d))); { string w; ap_dim_t* l = ap_texpr0_dimlist(a); for (int k = 0; l[k] != AP_DIM_MAX; k++) w += S(l[k]); free(l); CHK("dimlist", ([&] { string r; for (auto d : x.dimlist()) r += S(d); return r; })(), w); }
      CHK("classes", S(x.is_interval_cst()) + S(x.is_interval_linear()) + S(x.is_interval_polynomial()) + S(x.is_interval_polyfrac()) + S(x.is_scalar()), S(ap_texpr0_is_interval_cst(a)) + S(ap_texpr0_is_interval_linear(a)) + S(ap_texpr0_is_interval_polynomial(a)) + S(ap_texpr0_is_interval_polyfrac(a)) + S(ap_texpr0_is_scalar(a)));
      for (int d = 0; d < 3; d++) { ap_texpr0_t* t = ap_texpr0_substitute(a, d, b); CHK("substitute", ([&] { X::texpr0 t(x); t.substitute(d, y); return xt(t); })(), te(t)); CHK("substituted", xt(X::texpr0(x, d, y)), te(t)); ap_texpr0_free(t); }
      for (int k = 0; k < 3; k++) { ap_dimchange_t* c = DC(k); ap_texpr0_t* t = ap_texpr0_add_dimensions(a, c); CHK("add_dimensions", ([&] { X::texpr0 t(x); t.add_dimensions(xdc(DC(k))); return xt(t); })(), te(t)); CHK("with added", xt(X::texpr0(x, xdc(DC(k)), true)), te(t)); ap_texpr0_free(t); ap_dimchange_free(c); c = DR(k); t = ap_texpr0_remove_dimensions(a, c); CHK("remove_dimensions", ([&] { X::texpr0 t(x); t.remove_dimensions(xdc(DR(k))); return xt(t); })(), te(t)); CHK("with removed", xt(X::texpr0(x, xdc(DR(k)), false)), te(t)); ap_texpr0_free(t); ap_dimchange_free(c);
        ap_dimperm_t p = {&P[k][0], 3}; t = ap_texpr0_permute_dimensions(a, &p); CHK("permute", ([&] { X::texpr0 t(x); t.permute_dimensions(X::dimperm(P[k])); return xt(t); })(), te(t)); CHK("permuted", xt(X::texpr0(x, X::dimperm(P[k]))), te(t)); ap_texpr0_free(t); }
      struct { ap_texpr_op_t o; B (*f)(const B&, const B&, ap_texpr_rtype_t, ap_texpr_rdir_t); } bo[] = {{AP_TEXPR_ADD, X::add}, {AP_TEXPR_SUB, X::sub}, {AP_TEXPR_MUL, X::mul}, {AP_TEXPR_DIV, X::div}, {AP_TEXPR_MOD, X::mod}, {AP_TEXPR_POW, X::pow}};
      for (int ty = 0; ty < AP_RTYPE_SIZE; ty++) for (int dr = 0; dr < AP_RDIR_SIZE; dr++) { for (auto& q : bo) { ap_texpr0_t* t = ap_texpr0_binop(q.o, ap_texpr0_copy(a), ap_texpr0_copy(b), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr); CHK("function " + S(q.o), xt(X::texpr0(q.f(B(x), B(y), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr))), te(t)); CHK("binary " + S(q.o), xt(X::texpr0(binary(q.o, B(x), B(y), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr))), te(t)); ap_texpr0_free(t); }
        struct { ap_texpr_op_t o; B (*f)(const B&, ap_texpr_rtype_t, ap_texpr_rdir_t); } uo[] = {{AP_TEXPR_NEG, X::neg}, {AP_TEXPR_SQRT, X::sqrt}, {AP_TEXPR_CAST, X::cast}}; for (auto& q : uo) { ap_texpr0_t* t = ap_texpr0_unop(q.o, ap_texpr0_copy(a), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr); CHK("function " + S(q.o), xt(X::texpr0(q.f(B(x), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr))), te(t)); CHK("unary " + S(q.o), xt(X::texpr0(unary(q.o, B(x), (ap_texpr_rtype_t)ty, (ap_texpr_rdir_t)dr))), te(t)); ap_texpr0_free(t); } }
      { struct { ap_texpr_op_t o; X::texpr0 v; } q[] = {{AP_TEXPR_ADD, X::texpr0(B(x) + B(y))}, {AP_TEXPR_SUB, X::texpr0(B(x) - B(y))}, {AP_TEXPR_MUL, X::texpr0(B(x) * B(y))}, {AP_TEXPR_DIV, X::texpr0(B(x) / B(y))}, {AP_TEXPR_MOD, X::texpr0(B(x) % B(y))}, {AP_TEXPR_POW, X::texpr0(B(x) ^ B(y))}}; for (auto& z : q) { ap_texpr0_t* t = ap_texpr0_binop(z.o, ap_texpr0_copy(a), ap_texpr0_copy(b), AP_RTYPE_REAL, AP_RDIR_NEAREST); CHK("operator " + S(z.o), xt(z.v), te(t)); ap_texpr0_free(t); } ap_texpr0_t* t = ap_texpr0_unop(AP_TEXPR_NEG, ap_texpr0_copy(a), AP_RTYPE_REAL, AP_RDIR_NEAREST); CHK("operator -", xt(X::texpr0(-B(x))), te(t)); ap_texpr0_free(t); }
      { X::texpr0::const_iterator r = ((const X::texpr0&)x).root(); CHK("node", S(r.get_discr()) + S(r.get_op()) + S(r.get_rtype()) + S(r.get_rdir()), S(a->discr) + S(a->val.node->op) + S(a->val.node->type) + S(a->val.node->dir)); CHK("left", xt(X::texpr0(r.left())), te(a->val.node->exprA)); CHK("child", xt(X::texpr0(r.child())), te(a->val.node->exprA)); CHK("right", xt(X::texpr0(r.right())), a->val.node->exprB ? te(a->val.node->exprB) : "throws"); CHK("not a constant", cc(r.get_coeff()), "throws"); CHK("not a dimension", S(r.get_dim()), "throws");
        ap_texpr0_t* t = ap_texpr0_copy(a); ap_texpr0_free(t->val.node->exprA); t->val.node->exprA = ap_texpr0_copy(b); CHK("replace left", ([&] { X::texpr0 t(x); X::texpr0::iterator it = t.root(); it.left() = B(y); return xt(t); })(), te(t)); ap_texpr0_free(t); CHK("assign own child", ([&] { X::texpr0 t(x); t = ((const X::texpr0&)t).root().left(); return xt(t); })(), te(a->val.node->exprA)); }
      CHK("print", slurp([&](FILE* o) { x.print(NULL, o); }), slurp([&](FILE* o) { ap_texpr0_fprint(o, a, NULL); })); { X::texpr1 u(XE(0), x); ap_texpr1_t v = {a, ENV(0)}; for (const char* nm : {"x", "y", "z"}) { Vars vv({nm}); CHK("has_var", S(u.has_var(X::var((string)nm))), S(ap_texpr1_has_var(&v, vv.p[0]))); ap_texpr1_t w = {b, ENV(0)}; ap_texpr1_t* t = ap_texpr1_substitute(&v, vv.p[0], &w); X::texpr1 uy(XE(0), y); CHK("substitute1", ([&] { X::texpr1 t(u); t.substitute(X::var((string)nm), uy); return te(t.get_ap_texpr1_t()->texpr0); })(), te(t->texpr0)); ap_texpr1_free(t); } ap_texpr1_t* e = ap_texpr1_extend_environment(&v, ENV(1)); if (e) { CHK("extend1", ([&] { X::texpr1 t(u, XE(1)); return te(t.get_ap_texpr1_t()->texpr0); })(), te(e->texpr0)); CHK("extend1 in place", ([&] { X::texpr1 t(u); t.extend_environment(XE(1)); return te(t.get_ap_texpr1_t()->texpr0); })(), te(e->texpr0)); ap_texpr1_free(e); } CHK("extend1 invalid", ([&] { X::texpr1 t(u, XE(2)); return string("ok"); })(), "throws"); CHK("print1", slurp([&](FILE* o) { u.print(o); }), slurp([&](FILE* o) { ap_texpr1_fprint(o, &v); })); }
      ap_texpr0_free(a); ap_texpr0_free(b); g.ok(h); }
    for (auto& l : LX()) { if (!g.next([&] { return "from " + l.str(); })) continue; size_t h = 0; ap_linexpr0_t* e = mk_linexpr(l, true); ap_texpr0_t* a = ap_texpr0_from_linexpr0(e); X::linexpr0 z = (X::linexpr0&)*e; CHK("from linexpr", te((ap_texpr0_t*)X::texpr0(z).get_ap_texpr0_t()), te(a)); CHK("= linexpr", ([&] { X::texpr0 t = xtree(0); t = z; return te((ap_texpr0_t*)t.get_ap_texpr0_t()); })(), te(a)); ap_texpr0_free(a); ap_linexpr0_free(e); g.ok(h); }
    for (int i = 0; i < NC; i++) { if (!g.next([&] { return "constant " + S(i); })) continue; size_t h = 0; Cc c(i); ap_texpr0_t* a = ap_texpr0_cst(&c.c); auto xt = [](const X::texpr0& e) { return te((ap_texpr0_t*)e.get_ap_texpr0_t()) + co(&e.get_ap_texpr0_t()->val.cst); }; string w = te(a) + co(&a->val.cst); CHK("coeff", xt(X::texpr0(B(xc(i)))), w); CHK("zero", S(X::texpr0(B(xc(i))).is_zero()), S(ap_coeff_zero(&c.c))); if (i < (int)SV().size()) { const Sv& v = SV()[i]; CHK("scalar", xt(X::texpr0(B(xs(v)))), w); if (v.kind < 3) CHK("number", xt(X::texpr0(v.kind == 0 ? B(v.a) : v.kind == 1 ? B(X::frac(v.a, v.b)) : B((double)v.a / v.b))), w); } ap_texpr0_free(a); g.ok(h); } });
  R.group("environment", [](G& g) { auto& V = VS(); int n = V.size(); typedef X::environment E; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) for (int l = 0; l < n; l++) { if (!g.next([&] { return "environments " + S(i) + S(j) + S(k) + S(l); })) continue; size_t h = 0; auto xe = [](const E& e) { return evs(e.get_ap_environment_t()); };
      auto vi = cv(V[i]), vr = cv(V[j]), wi = cv(V[k]), wr = cv(V[l]); ap_environment_t* a = ap_environment_alloc(vi.data(), V[i].size(), vr.data(), V[j].size()); ap_environment_t* b = ap_environment_alloc(wi.data(), V[k].size(), wr.data(), V[l].size()); string sa = a ? evs(a) : "throws", sb = b ? evs(b) : "throws"; CHK("construct", xe(E(V[i], V[j])), sa); CHK("construct pointers", xe(E(V[i].data(), V[i].size(), V[j].data(), V[j].size())), sa);
      if (a) { E x(V[i], V[j]); CHK("sizes", S(x.intdim()) + S(x.realdim()), S(a->intdim) + S(a->realdim)); CHK("get_vars", ([&] { string r; size_t d = 0; for (auto& v : x.get_vars()) { r += string(d++ < x.intdim() ? "i" : "r") + (string)v + " "; } return r; })(), sa); for (const char* nm : {"x", "y", "c"}) { Vars vv({nm}); ap_dim_t d = ap_environment_dim_of_var(a, vv.p[0]); X::var q((string)nm); CHK("contains", S(x.contains(q)), S(d != AP_DIM_MAX)); CHK("[]", S(x[q]), d == AP_DIM_MAX ? "throws" : S(d)); CHK("get_dim", S(x.get_dim(q)), d == AP_DIM_MAX ? "throws" : S(d)); } for (size_t d = 0; d < 4; d++) CHK("get_var", (string)x.get_var(d), d < a->intdim + a->realdim ? string((char*)a->var_of_dim[d]) : "throws");
        size_t cnt = a->count; { ap_dimperm_t p = {NULL, 0}; ap_environment_t* c = ap_environment_add_perm(a, wi.data(), V[k].size(), wr.data(), V[l].size(), &p); string w = c ? evs(c) : "throws", wp = c ? w + dps(&p) : "throws"; CHK("add", xe(x.add(V[k], V[l])), w); CHK("add pointers", xe(x.add(V[k].data(), V[k].size(), V[l].data(), V[l].size())), w); CHK("add perm", ([&] { X::dimperm q(2); E r = x.add(V[k], V[l], q); return xe(r) + dps(q.get_ap_dimperm_t()); })(), wp); CHK("add perm pointers", ([&] { X::dimperm q(2); E r = x.add(V[k].data(), V[k].size(), V[l].data(), V[l].size(), q); return xe(r) + dps(q.get_ap_dimperm_t()); })(), wp); if (c) { ap_environment_free(c); ap_dimperm_clear(&p); } }
        { ap_environment_t* c = ap_environment_remove(a, wi.data(), V[k].size()); string w = c ? evs(c) : "throws"; CHK("remove", xe(x.remove(V[k])), w); CHK("remove pointers", xe(x.remove(V[k].data(), V[k].size())), w); if (c) ap_environment_free(c); }
        if (V[k].size() == V[l].size()) { ap_dimperm_t p = {NULL, 0}; ap_environment_t* c = ap_environment_rename(a, wi.data(), wr.data(), V[k].size(), &p); string w = c ? evs(c) : "throws", wp = c ? w + dps(&p) : "throws"; vector<std::pair<X::var, X::var>> pr; for (size_t z = 0; z < V[k].size(); z++) pr.push_back({V[k][z], V[l][z]}); CHK("rename", xe(x.rename(pr)), w); CHK("rename pointers", xe(x.rename(V[k].data(), V[l].data(), V[k].size())), w); CHK("rename perm", ([&] { X::dimperm q(2); E r = x.rename(pr, q); return xe(r) + dps(q.get_ap_dimperm_t()); })(), wp); CHK("rename perm pointers", ([&] { X::dimperm q(2); E r = x.rename(V[k].data(), V[l].data(), V[k].size(), q); return xe(r) + dps(q.get_ap_dimperm_t()); })(), wp); if (c) { ap_environment_free(c); ap_dimperm_clear(&p); } }
        if (b) { E y(V[k], V[l]); CHK("==", S(x == y), S(ap_environment_is_eq(a, b))); CHK("!=", S(x != y), S(!ap_environment_is_eq(a, b))); CHK("<=", S(x <= y), S(ap_environment_is_leq(a, b))); CHK(">=", S(x >= y), S(ap_environment_is_leq(b, a))); int c = ap_environment_compare(a, b); CHK("cmp", S(cmp(x, y)), S(c)); CHK("=", ([&] { E t(x); t = y; return xe(t); })(), sb);
          ap_dimchange_t* ch = ap_environment_dimchange(a, b); CHK("get_dimchange", dcs(get_dimchange(x, y).get_ap_dimchange_t()), ch ? dcs(ch) : "throws"); if (ch) ap_dimchange_free(ch); ap_dimchange_t *p = NULL, *q = NULL; ap_environment_t* m = ap_environment_lce(a, b, &p, &q); string w = m ? evs(m) : "throws"; auto z = [](ap_dimchange_t* d) { return d ? dcs(d) : string("0+0:"); }; string wd = m ? w + z(p) + z(q) : "throws"; CHK("lce", xe(lce(x, y)), w); CHK("lce changes", ([&] { X::dimchange u(1, 1), v(0, 3); E r = lce(x, y, u, v); return xe(r) + dcs(u.get_ap_dimchange_t()) + dcs(v.get_ap_dimchange_t()); })(), wd); if (p) ap_dimchange_free(p); if (q) ap_dimchange_free(q); if (m) ap_environment_free(m);
          ap_environment_t* ar[3] = {a, b, a}; for (int nn = 1; nn <= 3; nn++) { ap_dimchange_t** t = NULL; ap_environment_t* m = ap_environment_lce_array(ar, nn, &t); string w = m ? evs(m) : "throws", wd = w; if (m) for (int s = 0; s < nn; s++) wd += t ? z(t[s]) : string("0+0:"); vector<E> ev; for (int s = 0; s < nn; s++) ev.push_back(s == 1 ? y : x); CHK("lce vector", xe(lce(ev)), w); CHK("lce pointers", xe(lce(&ev[0], ev.size())), w); CHK("lce vector changes", ([&] { vector<X::dimchange> u(nn, X::dimchange(1, 2)); E r = lce(ev, u); string o = xe(r); for (auto& d : u) o += dcs(d.get_ap_dimchange_t()); return o; })(), wd); CHK("lce pointers changes", ([&] { vector<X::dimchange> u(nn, X::dimchange(1, 2)); E r = lce(&ev[0], &u[0], nn); string o = xe(r); for (auto& d : u) o += dcs(d.get_ap_dimchange_t()); return o; })(), wd); if (t) { for (int s = 0; s < nn; s++) if (t[s]) ap_dimchange_free(t[s]); free(t); } if (m) ap_environment_free(m); } }
        if (a->count != cnt) g.fail("count", "reference count"); }
      if (a) ap_environment_free(a); if (b) ap_environment_free(b); g.ok(h); } });
}
