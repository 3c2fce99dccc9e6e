// Scalars, intervals and coefficients of libapron against exact rationals (C17).
#include "base.hh"
#include "flat.hh"
#include <functional>
using flat::G; using flat::Runner;
struct Val { EQ e; int rep; int prec; bool negz; string name; };   // rep 0 mpq, 1 double, 2 mpfr
static string rn(int rep, int prec) { return rep == 0 ? "q" : rep == 1 ? "d" : "f" + std::to_string(prec); }
static bool fits_d(const Q& q) { mpfr_t m; mpfr_init2(m, 3000); mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN); double d = mpfr_get_d(m, MPFR_RNDN); mpfr_clear(m); if (std::isinf(d)) return false; Q r; mpq_set_d(r.get_mpq_t(), d); return r == q; }
static bool fits_f(const Q& q, int p) { mpfr_t m; mpfr_init2(m, p); int r = mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN); mpfr_clear(m); return r == 0; }
static Q P2(long e) { Q r(1); if (e >= 0) mpz_mul_2exp(r.get_num_mpz_t(), r.get_num_mpz_t(), e); else mpz_mul_2exp(r.get_den_mpz_t(), r.get_den_mpz_t(), -e); return r; }
static Q P10(long e) { mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 10, labs(e)); return e >= 0 ? Q(z) : Q(1) / Q(z); }
static void put(ap_scalar_t* s, const Val& v) {
  if (v.rep == 1) { double d; if (v.e.inf) d = v.e.inf > 0 ? INFINITY : -INFINITY; else { mpfr_t m; mpfr_init2(m, 3000); mpfr_set_q(m, v.e.v.get_mpq_t(), MPFR_RNDN); d = mpfr_get_d(m, MPFR_RNDN); mpfr_clear(m); } if (v.negz) d = -0.0; ap_scalar_set_double(s, d); }
  else if (v.rep == 0) { mpq_t q; mpq_init(q); if (v.e.inf) { mpz_set_si(mpq_numref(q), v.e.inf); mpz_set_si(mpq_denref(q), 0); } else mpq_set(q, v.e.v.get_mpq_t()); ap_scalar_set_mpq(s, q); mpq_clear(q); }
  else { mpfr_t m; mpfr_init2(m, v.prec); if (v.e.inf) mpfr_set_inf(m, v.e.inf); else mpfr_set_q(m, v.e.v.get_mpq_t(), MPFR_RNDN); if (v.negz) mpfr_set_zero(m, -1); ap_scalar_set_mpfr(s, m); mpfr_clear(m); }
}
struct S { ap_scalar_t* s; S() { s = ap_scalar_alloc(); } explicit S(const Val& v) { s = ap_scalar_alloc(); put(s, v); } ~S() { ap_scalar_free(s); } S(const S&) = delete; operator ap_scalar_t*() { return s; } };
static vector<EQ> values(int tier) {
  vector<EQ> r = {minf(), pinf()}; auto a = [&](const Q& q) { r.push_back(EQ(q)); if (q != 0) r.push_back(EQ(-q)); };
  a(0); a(1); a(2); a(3); a(7); a(mkq(1, 2)); a(mkq(3, 2)); a(mkq(7, 2)); a(mkq(5, 4)); a(mkq(1, 3)); a(mkq(2, 3)); a(mkq(1, 10)); { Q t; mpq_set_d(t.get_mpq_t(), 0.1); a(t); }
  a(Q(100)); a(1 + P2(-52)); a(1 - P2(-53)); a(1 + P2(-53)); a(P2(31)); a(P2(31) - 1); a(P2(32)); a(P2(53)); a(P2(53) + 1); a(P2(62)); a(P2(63) - 1); a(P2(63)); a(P2(64)); a(P2(64) + mkq(1, 2)); a(P10(30)); a(P2(-1074)); a(P2(-1075)); a(P2(-1080)); a(P2(-1022) + P2(-1074)); a(P10(-400)); a(P10(400)); a(P2(1024)); a(P2(1024) - P2(971)); a(P2(1024) - P2(970)); a(P10(20) + mkq(1, 3));
  if (tier) { for (long e : {-1076L, -1073L, -1023L, -1022L, -537L, 24L, 25L, 52L, 54L, 65L, 113L, 200L, 1023L, 1025L}) { a(P2(e)); a(P2(e) * 3); a(P2(e) + P2(e - 53)); a(P2(e) * mkq(1, 3)); } for (long d : {5L, 7L, 9L, 11L, 1000003L}) for (long n : {1L, 2L, 4L, 22L}) a(mkq(n, d)); }
  std::sort(r.begin(), r.end(), [](const EQ& x, const EQ& y) { return ecmp(x, y) < 0; }); r.erase(std::unique(r.begin(), r.end(), [](const EQ& x, const EQ& y) { return ecmp(x, y) == 0; }), r.end());
  return r;
}
static vector<Val> vals(int tier, const vector<EQ>& es_) {
  vector<Val> r; for (auto& e : es_) { auto add = [&](int rep, int p, bool nz) { r.push_back({e, rep, p, nz, rn(rep, p) + ":" + (nz ? "-0" : es(e))}); };
    add(0, 0, false); if (e.inf || fits_d(e.v)) { add(1, 0, false); if (!e.inf && e.v == 0) add(1, 0, true); }
    for (int p : (tier ? vector<int>{2, 24, 53, 64, 113, 200, 1100} : vector<int>{24, 53, 113, 200})) if (e.inf || fits_f(e.v, p)) { add(2, p, false); if (!e.inf && e.v == 0) add(2, p, true); } }
  return r;
}
static EQ rd_double(const Q& q, mpfr_rnd_t r) { mpfr_t m; mpfr_init2(m, 6000); int k = mpfr_set_q(m, q.get_mpq_t(), r); (void)k; double d = mpfr_get_d(m, r); mpfr_clear(m); if (std::isinf(d)) return d > 0 ? pinf() : minf(); Q x; mpq_set_d(x.get_mpq_t(), d); return EQ(x); }
static EQ rd_mpfr(const Q& q, int p, mpfr_rnd_t r) { mpfr_t m; mpfr_init2(m, p); mpfr_set_q(m, q.get_mpq_t(), r); Q x; if (mpfr_inf_p(m)) { int g = mpfr_sgn(m); mpfr_clear(m); return g > 0 ? pinf() : minf(); } mpfr_get_q(x.get_mpq_t(), m); mpfr_clear(m); return EQ(x); }
static const mpfr_rnd_t RM[] = {MPFR_RNDN, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD}; static const char* RMN[] = {"N", "Z", "U", "D"};
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static string sstr(ap_scalar_t* s) { EQ e = scalar_q(s); return isnan_eq(e) ? "NaN" : rn(s->discr == AP_SCALAR_DOUBLE ? 1 : s->discr == AP_SCALAR_MPQ ? 0 : 2, s->discr == AP_SCALAR_MPFR ? mpfr_get_prec(s->val.mpfr) : 0) + ":" + es(e); }
static bool same(ap_scalar_t* s, const Val& v) { return ecmp(scalar_q(s), v.e) == 0 && sstr(s).substr(0, sstr(s).find(':')) == rn(v.rep, v.prec); }
template <class F> static string prints(F f) { char* p = NULL; size_t n = 0; FILE* o = open_memstream(&p, &n); f(o); fclose(o); string r(p, n); free(p); return r; }
static EQ parse(const string& s) { if (s == "+oo") return pinf(); if (s == "-oo") return minf(); if (s.find('/') != string::npos) { Q q(s); q.canonicalize(); return EQ(q); }
  size_t p = s.find_first_of("eE"); string m = s.substr(0, p); long e = p == string::npos ? 0 : atol(s.c_str() + p + 1); size_t d = m.find('.'); if (d != string::npos) { e -= (long)(m.size() - d - 1); m.erase(d, 1); } if (m[0] == '+') m.erase(0, 1); bool neg = m[0] == '-'; if (neg) m.erase(0, 1); size_t z = m.find_first_not_of('0'); m = z == string::npos ? "0" : m.substr(z); Q q((mpz_class(m))); q *= P10(e); return EQ(neg ? Q(-q) : q); }
int main(int argc, char** argv) {
  Runner R(argc, argv); R.dom = "scalar"; int T = R.tier; auto E = values(T); auto V = vals(T, E);
  auto pairs = [&](const string& n, int step) { for (int part = 0; part < step; part++) R.group(n + " " + std::to_string(part), [&, part, step](G& g) { for (size_t i = part; i < V.size(); i += step) for (auto& y : V) { auto& x = V[i]; if (!g.next([&] { return x.name + " , " + y.name; })) continue; S a(x), b(y); int w = ecmp(x.e, y.e);
      int c = ap_scalar_cmp(a, b); if (sg(c) != sg(w)) g.fail("cmp", "ap_scalar_cmp gives " + std::to_string(c) + " expected sign " + std::to_string(sg(w)));
      bool q = ap_scalar_equal(a, b); if (q != (w == 0)) g.fail("equal", "ap_scalar_equal gives " + std::to_string(q));
      if (w == 0) { long h = ap_scalar_hash(a), k = ap_scalar_hash(b); if (h != k) g.fail("hash", "equal scalars hash to " + std::to_string(h) + " and " + std::to_string(k)); }
      if (!same(a, x) || !same(b, y)) g.fail("args", "comparison changed its arguments");
      { ap_scalar_set(b, a); if (!same(b, x)) g.fail("set", "ap_scalar_set gives " + sstr(b)); }
      { S d(y); ap_scalar_neg(d, a); Val m = x; if (m.e.inf) m.e.inf = -m.e.inf; else m.e.v = -m.e.v; if (!same(d, m) || !same(a, x)) g.fail("neg", "ap_scalar_neg gives " + sstr(d)); }
      if (x.e.inf || x.e.v != 0) { S d(y); ap_scalar_inv(d, a); EQ r = scalar_q(d); bool ok; if (x.rep == 0) ok = x.e.inf || (!r.inf && r.v * x.e.v == 1); else if (x.e.inf) ok = !r.inf && r.v == 0; else { Q ex = 1 / x.e.v; EQ lo = x.rep == 1 ? rd_double(ex, MPFR_RNDD) : rd_mpfr(ex, x.prec, MPFR_RNDD), hi = x.rep == 1 ? rd_double(ex, MPFR_RNDU) : rd_mpfr(ex, x.prec, MPFR_RNDU); ok = ecmp(lo, r) == 0 || ecmp(hi, r) == 0; } if (!ok || isnan_eq(r)) g.fail("inv", "ap_scalar_inv gives " + sstr(d)); if (!same(a, x)) g.fail("args", "inversion changed its argument"); }
      { S p(x), r(y); ap_scalar_swap(p, r); if (!same(p, y) || !same(r, x)) g.fail("swap", "not exchanged"); }
      { double lo; (void)lo; ap_interval_t* t = ap_interval_alloc(); ap_interval_set_scalar(t, a, S(y)); if (ecmp(scalar_q(t->inf), x.e) || ecmp(scalar_q(t->sup), y.e)) g.fail("iset", "ap_interval_set_scalar gives another interval"); ap_interval_free(t); }
      g.ok(c * 2 + q); } }); };
  pairs("pair", 16);
  R.group("unary", [&](G& g) { for (auto& x : V) { if (!g.next([&] { return x.name; })) continue; S a(x);
      if (ap_scalar_infty(a) != x.e.inf) g.fail("infty", "ap_scalar_infty gives " + std::to_string(ap_scalar_infty(a)));
      int w = x.e.inf ? x.e.inf : sgn(x.e.v); if (ap_scalar_sgn(a) != w) g.fail("sgn", "ap_scalar_sgn gives " + std::to_string(ap_scalar_sgn(a)));
      for (int b : {0, 1, -1, 2, -2, 3, 7, -7, 100, INT32_MAX, -INT32_MAX, -INT32_MAX - 1}) { int c = ecmp(x.e, EQ(Q(b))); if (sg(ap_scalar_cmp_int(a, b)) != sg(c)) g.fail("cmp_int", "ap_scalar_cmp_int with " + std::to_string(b)); if (ap_scalar_equal_int(a, b) != (c == 0)) g.fail("equal_int", "ap_scalar_equal_int with " + std::to_string(b)); }
      { ap_scalar_t* c = ap_scalar_alloc_set(a); if (!same(c, x)) g.fail("copy", "ap_scalar_alloc_set gives " + sstr(c)); ap_scalar_free(c); }
      { S c(x); ap_scalar_neg(c, c); Val m = x; if (m.e.inf) m.e.inf = -m.e.inf; else m.e.v = -m.e.v; if (!same(c, m)) g.fail("neg", "ap_scalar_neg in place gives " + sstr(c)); }
      { S c(x); ap_scalar_set(c, c); if (!same(c, x)) g.fail("set", "self assignment gives " + sstr(c)); }
      if (!x.e.inf && x.e.v != 0 && x.rep == 0) { S c(x); ap_scalar_inv(c, c); if (scalar_q(c).v * x.e.v != 1) g.fail("inv", "ap_scalar_inv in place gives " + sstr(c)); }
      for (int k = -2; k <= 2; k++) { S c(x); ap_scalar_set_infty(c, k); EQ r = scalar_q(c); EQ w2 = k > 0 ? pinf() : k < 0 ? minf() : EQ(Q(0)); if (ecmp(r, w2) || ap_scalar_infty(c) != sg(k)) g.fail("set_infty", "ap_scalar_set_infty(" + std::to_string(k) + ") gives " + sstr(c)); }
      for (int k = 0; k < 3; k++) { S c(x); ap_scalar_discr_t d[] = {AP_SCALAR_DOUBLE, AP_SCALAR_MPQ, AP_SCALAR_MPFR}; ap_scalar_reinit(c, d[k]); if (c.s->discr != d[k]) g.fail("reinit", "type not changed"); if (k == 0 && x.rep == 1 && !same(c, x)) g.fail("reinit", "value changed"); }
      { mpq_t q; mpq_init(q); int r = ap_mpq_set_scalar(q, a, MPFR_RNDU); EQ v; if (mpz_sgn(mpq_denref(q)) == 0) v = mpz_sgn(mpq_numref(q)) > 0 ? pinf() : minf(); else { Q t; mpq_set(t.get_mpq_t(), q); Q u = t; u.canonicalize(); if (mpz_cmp(u.get_num_mpz_t(), t.get_num_mpz_t()) || mpz_cmp(u.get_den_mpz_t(), t.get_den_mpz_t())) g.fail("to_mpq", "not canonical"); v = EQ(u); } if (ecmp(v, x.e) || r) g.fail("to_mpq", "ap_mpq_set_scalar gives " + es(v) + " returns " + std::to_string(r)); mpq_clear(q); }
      for (int m = 0; m < 4; m++) { double d = 12345; int r = ap_double_set_scalar(&d, a, RM[m]); if (d != d) { g.fail("to_double", "NaN"); continue; } EQ v = std::isinf(d) ? (d > 0 ? pinf() : minf()) : EQ(Q(d)); string what = string("ap_double_set_scalar ") + RMN[m] + " gives " + es(v) + " returns " + std::to_string(r);
        EQ lo = x.e.inf ? x.e : rd_double(x.e.v, MPFR_RNDD), hi = x.e.inf ? x.e : rd_double(x.e.v, MPFR_RNDU); bool neg = w < 0;
        if (m == 2 ? ecmp(v, hi) : m == 3 ? ecmp(v, lo) : m == 1 ? ecmp(v, neg ? hi : lo) : (ecmp(v, lo) && ecmp(v, hi))) g.fail("to_double", what);
        if (sg(r) != ecmp(v, x.e) && !(ecmp(v, x.e) != 0 && sg(r) == sg(ecmp(v, x.e)))) g.fail("to_double_ret", what); }
      for (int m = 0; m < 4; m++) for (int p : {10, 24, 53, 113, 1200}) { mpfr_t f; mpfr_init2(f, p); int r = ap_mpfr_set_scalar(f, a, RM[m]); EQ v; if (mpfr_nan_p(f)) v.inf = 99; else if (mpfr_inf_p(f)) v = mpfr_sgn(f) > 0 ? pinf() : minf(); else mpfr_get_q(v.v.get_mpq_t(), f); string what = string("ap_mpfr_set_scalar ") + RMN[m] + " precision " + std::to_string(p) + " gives " + es(v) + " returns " + std::to_string(r); if (mpfr_get_prec(f) != p) g.fail("to_mpfr", "precision changed"); mpfr_clear(f);
        EQ ex = x.e.inf ? x.e : rd_mpfr(x.e.v, p, RM[m]); if (isnan_eq(v) || ecmp(v, ex)) { g.fail("to_mpfr", what); continue; } if (sg(r) != sg(ecmp(v, x.e))) g.fail("to_mpfr_ret", what); }
      { string s = prints([&](FILE* o) { ap_scalar_fprint(o, a); }); EQ p = parse(s); bool ok; if (x.e.inf) ok = ecmp(p, x.e) == 0; else if (x.rep == 0) ok = ecmp(p, x.e) == 0; else if (x.e.v == 0) ok = !p.inf && p.v == 0; else ok = !p.inf && abs(p.v - x.e.v) <= abs(x.e.v) * P10(-18); if (!ok) g.fail("print", "printed as " + s); if (s == "-0") g.fail("print", "printed as -0"); }
      if (!x.e.inf && x.rep == 1) { double d = x.negz ? -0.0 : rd_double(x.e.v, MPFR_RNDN).v.get_d(); (void)d; }
      if (!x.e.inf) { if (x.rep == 0) { Q t = x.e.v; ap_scalar_t* c = ap_scalar_alloc_set_mpq(t.get_mpq_t()); if (!same(c, x)) g.fail("copy", "ap_scalar_alloc_set_mpq"); ap_scalar_free(c); if (t.get_num().fits_slong_p() && t.get_den().fits_ulong_p()) { S z(V[0]); long n = t.get_num().get_si(); unsigned long dd = t.get_den().get_ui(); ap_scalar_set_frac(z, n, dd); if (!same(z, x)) g.fail("set_frac", sstr(z)); if (labs(n) < (1L << 60) && dd < (1UL << 60)) { ap_scalar_set_frac(z, n * 6, dd * 6); if (!same(z, x)) g.fail("set_frac", sstr(z)); } if (dd == 1) { ap_scalar_set_int(z, n); if (!same(z, x)) g.fail("set_int", sstr(z)); } } }
        if (x.rep == 2) { mpfr_t f; mpfr_init2(f, x.prec); mpfr_set_q(f, x.e.v.get_mpq_t(), MPFR_RNDN); ap_scalar_t* c = ap_scalar_alloc_set_mpfr(f); if (!same(c, x)) g.fail("copy", "ap_scalar_alloc_set_mpfr"); ap_scalar_free(c); mpfr_clear(f); } }
      if (x.rep == 1) { double d = a.s->val.dbl; ap_scalar_t* c = ap_scalar_alloc_set_double(d); if (!same(c, x)) g.fail("copy", "ap_scalar_alloc_set_double"); ap_scalar_free(c); }
      if (!same(a, x)) g.fail("args", "argument changed");
      g.ok(ap_scalar_hash(a)); } });
  // ---- intervals ----
  vector<EQ> B; for (auto s : {"-7/2", "-1", "-1/3", "0", "1/2", "1", "2", "7/2"}) { Q q(s); q.canonicalize(); B.push_back(EQ(q)); } B.push_back(minf()); B.push_back(pinf()); if (T) { B.push_back(EQ(P2(64))); B.push_back(EQ(-P2(70) - mkq(1, 3))); B.push_back(EQ(P2(-1080))); B.push_back(EQ(Q(-2))); }
  struct IVal { Val lo, hi; string name; bool bot; };
  static vector<IVal> I; { auto W = vals(0, B); vector<Val> X; for (auto& v : W) if (v.rep != 2 || v.prec == 53) X.push_back(v);
    for (auto& a : X) for (auto& b : X) { if (a.rep != b.rep && !(T ? true : ((a.e.inf || a.e.v.get_den() == 1) && (b.e.inf || b.e.v.get_den() == 1)))) continue; if (a.negz || b.negz) continue; I.push_back({a, b, "[" + a.name + "," + b.name + "]", ecmp(a.e, b.e) > 0}); } }
  auto mki = [](const IVal& v) { ap_interval_t* t = ap_interval_alloc(); put(t->inf, v.lo); put(t->sup, v.hi); return t; };
  auto isame = [](ap_interval_t* t, const IVal& v) { return same(t->inf, v.lo) && same(t->sup, v.hi); };
  int PI = 16; for (int part = 0; part < PI; part++) R.group("interval " + std::to_string(part), [&, part](G& g) { for (size_t i = part; i < I.size(); i += PI) { auto& x = I[i]; ap_interval_t* a = mki(x); for (size_t j = 0; j < I.size(); j++) { auto& y = I[j]; if (!g.next([&] { return x.name + " , " + y.name; })) continue; ap_interval_t* b = mki(y);
        int ci = ecmp(x.lo.e, y.lo.e), cs = ecmp(x.hi.e, y.hi.e); bool leq = x.bot || (!y.bot && ci >= 0 && cs <= 0), geq = y.bot || (!x.bot && ci <= 0 && cs >= 0);
        bool r = ap_interval_is_leq(a, b); if (r != leq) g.fail("leq", "ap_interval_is_leq gives " + std::to_string(r));
        bool e = ap_interval_equal(a, b); if (e != (leq && geq)) g.fail("equal", "ap_interval_equal gives " + std::to_string(e));
        int c = ap_interval_cmp(a, b); int wc = leq && geq ? 0 : leq ? -1 : geq ? 1 : ci < 0 ? -2 : 2; if (c != wc) g.fail("cmp", "ap_interval_cmp gives " + std::to_string(c) + " expected " + std::to_string(wc));
        if (leq && geq && ap_interval_hash(a) != ap_interval_hash(b)) g.fail("hash", "equal intervals hash differently");
        { ap_interval_t* d = mki(y); ap_interval_neg(d, a); EQ l = x.hi.e, h = x.lo.e; l.inf = -l.inf; l.v = -l.v; h.inf = -h.inf; h.v = -h.v; if (ecmp(scalar_q(d->inf), l) || ecmp(scalar_q(d->sup), h)) g.fail("neg", "ap_interval_neg gives " + interval_q(d).str()); ap_interval_set(d, a); if (!isame(d, x)) g.fail("set", "ap_interval_set gives " + interval_q(d).str()); ap_interval_free(d); }
        // coefficients
        auto mkc = [&](const IVal& v, bool sc) { ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); if (sc) { S s(v.lo); ap_coeff_set_scalar(k, s); } else { ap_interval_t* t = mki(v); ap_coeff_set_interval(k, t); ap_interval_free(t); } return k; };
        for (int s1 = 0; s1 < 2; s1++) for (int s2 = 0; s2 < 2; s2++) { if ((s1 && ecmp(x.lo.e, x.hi.e)) || (s2 && ecmp(y.lo.e, y.hi.e))) continue; ap_coeff_t *k = mkc(x, s1), *l = mkc(y, s2);
          int cc = ap_coeff_cmp(k, l); int we = s1 != s2 ? (s1 ? -3 : 3) : s1 ? sg(ci) : wc; if (s1 && s2 ? sg(cc) != we : cc != we) g.fail("coeff_cmp", "ap_coeff_cmp gives " + std::to_string(cc) + " expected " + std::to_string(we));
          bool ce = ap_coeff_equal(k, l); if (ce != (s1 == s2 && leq && geq)) g.fail("coeff_equal", "ap_coeff_equal gives " + std::to_string(ce)); if (ce && ap_coeff_hash(k) != ap_coeff_hash(l)) g.fail("coeff_hash", "equal coefficients hash differently");
          ap_coeff_t* m = ap_coeff_alloc_set(l); ap_coeff_neg(m, k); Itv nv = coeff_q(m); EQ nl = x.hi.e, nh = x.lo.e; nl.inf = -nl.inf; nl.v = -nl.v; nh.inf = -nh.inf; nh.v = -nh.v; if (ecmp(nv.lo, nl) || ecmp(nv.hi, nh) || m->discr != k->discr) g.fail("coeff_neg", "ap_coeff_neg gives " + nv.str());
          ap_coeff_set(m, l); if (!ap_coeff_equal(m, l)) g.fail("coeff_set", "ap_coeff_set gives another value"); ap_coeff_set(m, k); Itv sv = coeff_q(m); if (ecmp(sv.lo, x.lo.e) || ecmp(sv.hi, x.hi.e) || m->discr != k->discr) g.fail("coeff_set", "ap_coeff_set gives " + sv.str()); ap_coeff_swap(m, l); if (ecmp(coeff_q(l).lo, x.lo.e) || ecmp(coeff_q(m).lo, y.lo.e)) g.fail("coeff_swap", "not exchanged");
          ap_coeff_free(k); ap_coeff_free(l); ap_coeff_free(m); }
        if (!isame(a, x) || !isame(b, y)) g.fail("args", "argument changed");
        g.ok(c * 4 + e * 2 + r); ap_interval_free(b); } ap_interval_free(a); } });
  R.group("interval1", [&](G& g) { for (auto& x : I) { if (!g.next([&] { return x.name; })) continue; ap_interval_t* a = mki(x);
      bool top = x.lo.e.inf < 0 && x.hi.e.inf > 0; if (ap_interval_is_top(a) != top) g.fail("top", "ap_interval_is_top"); if (ap_interval_is_bottom(a) != x.bot) g.fail("bottom", "ap_interval_is_bottom");
      for (int k = -4; k <= 7; k++) { bool w = !ecmp(x.lo.e, EQ(Q(k))) && !ecmp(x.hi.e, EQ(Q(k))); if (ap_interval_equal_int(a, k) != w) g.fail("equal_int", "ap_interval_equal_int with " + std::to_string(k)); ap_coeff_t* c = ap_coeff_alloc_set_interval(a); if (ap_coeff_equal_int(c, k) != w) g.fail("coeff_equal_int", "ap_coeff_equal_int of an interval with " + std::to_string(k)); if (k == 0 && ap_coeff_zero(c) != w) g.fail("coeff_zero", "ap_coeff_zero of an interval"); ap_coeff_free(c);
        S s(x.lo); c = ap_coeff_alloc_set_scalar(s); bool w2 = !ecmp(x.lo.e, EQ(Q(k))); if (ap_coeff_equal_int(c, k) != w2) g.fail("coeff_equal_int", "ap_coeff_equal_int of a scalar with " + std::to_string(k)); if (k == 0 && ap_coeff_zero(c) != w2) g.fail("coeff_zero", "ap_coeff_zero of a scalar"); ap_coeff_free(c); }
      { ap_interval_t* c = ap_interval_alloc_set(a); if (!isame(c, x)) g.fail("copy", "ap_interval_alloc_set"); ap_interval_neg(c, c); EQ l = x.hi.e, h = x.lo.e; l.inf = -l.inf; l.v = -l.v; h.inf = -h.inf; h.v = -h.v; if (ecmp(scalar_q(c->inf), l) || ecmp(scalar_q(c->sup), h)) g.fail("neg", "in place ap_interval_neg gives " + interval_q(c).str()); if (!isame(a, x)) g.fail("copy", "the copy shares memory"); ap_interval_set_top(c); if (!ap_interval_is_top(c) || c->inf->discr != a->sup->discr && c->inf->discr != a->inf->discr) g.fail("set_top", interval_q(c).str()); ap_interval_set_bottom(c); if (!ap_interval_is_bottom(c)) g.fail("set_bottom", interval_q(c).str()); ap_interval_free(c); }
      { ap_interval_t* c = ap_interval_alloc(); Val l = x.lo, h = x.hi; Q ql = l.e.v, qh = h.e.v; if (!l.e.inf && !h.e.inf) { ap_interval_set_mpq(c, ql.get_mpq_t(), qh.get_mpq_t()); Itv v = interval_q(c); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("iset", "ap_interval_set_mpq");
            if (ql.get_num().fits_slong_p() && qh.get_num().fits_slong_p() && ql.get_den().fits_ulong_p() && qh.get_den().fits_ulong_p()) { ap_interval_set_frac(c, ql.get_num().get_si(), ql.get_den().get_ui(), qh.get_num().get_si(), qh.get_den().get_ui()); v = interval_q(c); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("iset", "ap_interval_set_frac"); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_frac(k, ql.get_num().get_si(), ql.get_den().get_ui(), qh.get_num().get_si(), qh.get_den().get_ui()); v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e) || k->discr != AP_COEFF_INTERVAL) g.fail("cset", "ap_coeff_set_interval_frac"); ap_coeff_set_scalar_frac(k, ql.get_num().get_si(), ql.get_den().get_ui()); if (ecmp(coeff_q(k).lo, l.e) || k->discr != AP_COEFF_SCALAR) g.fail("cset", "ap_coeff_set_scalar_frac"); ap_coeff_free(k); }
            if (ql.get_den() == 1 && qh.get_den() == 1 && ql.get_num().fits_slong_p() && qh.get_num().fits_slong_p()) { ap_interval_set_int(c, ql.get_num().get_si(), qh.get_num().get_si()); v = interval_q(c); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("iset", "ap_interval_set_int"); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_INTERVAL); ap_coeff_set_interval_int(k, ql.get_num().get_si(), qh.get_num().get_si()); v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e) || k->discr != AP_COEFF_INTERVAL) g.fail("cset", "ap_coeff_set_interval_int"); ap_coeff_set_scalar_int(k, ql.get_num().get_si()); if (ecmp(coeff_q(k).lo, l.e)) g.fail("cset", "ap_coeff_set_scalar_int"); ap_coeff_free(k); }
            { ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_mpq(k, ql.get_mpq_t(), qh.get_mpq_t()); v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("cset", "ap_coeff_set_interval_mpq"); ap_coeff_set_scalar_mpq(k, ql.get_mpq_t()); if (ecmp(coeff_q(k).lo, l.e)) g.fail("cset", "ap_coeff_set_scalar_mpq"); ap_coeff_free(k); } }
          if (l.rep == 1 && h.rep == 1) { double dl = a->inf->val.dbl, dh = a->sup->val.dbl; ap_interval_set_double(c, dl, dh); Itv v = interval_q(c); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("iset", "ap_interval_set_double"); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_double(k, dl, dh); v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("cset", "ap_coeff_set_interval_double"); ap_coeff_set_scalar_double(k, dh); if (ecmp(coeff_q(k).lo, h.e)) g.fail("cset", "ap_coeff_set_scalar_double"); ap_coeff_free(k); }
          if (l.rep == 2 && h.rep == 2) { ap_interval_set_mpfr(c, a->inf->val.mpfr, a->sup->val.mpfr); Itv v = interval_q(c); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("iset", "ap_interval_set_mpfr"); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_mpfr(k, a->inf->val.mpfr, a->sup->val.mpfr); v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("cset", "ap_coeff_set_interval_mpfr"); ap_coeff_set_scalar_mpfr(k, a->sup->val.mpfr); if (ecmp(coeff_q(k).lo, h.e)) g.fail("cset", "ap_coeff_set_scalar_mpfr"); ap_coeff_free(k); }
          { ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_scalar(k, a->inf, a->sup); Itv v = coeff_q(k); if (ecmp(v.lo, l.e) || ecmp(v.hi, h.e)) g.fail("cset", "ap_coeff_set_interval_scalar"); ap_coeff_neg(k, k); v = coeff_q(k); EQ nl = h.e, nh = l.e; nl.inf = -nl.inf; nl.v = -nl.v; nh.inf = -nh.inf; nh.v = -nh.v; if (ecmp(v.lo, nl) || ecmp(v.hi, nh)) g.fail("coeff_neg", "in place"); ap_coeff_reduce(k); v = coeff_q(k); if (ecmp(v.lo, nl) || ecmp(v.hi, nh) || (k->discr == AP_COEFF_SCALAR) != (ecmp(l.e, h.e) == 0)) g.fail("reduce", "ap_coeff_reduce gives " + v.str()); ap_coeff_set_interval_top(k); if (!coeff_q(k).top() || k->discr != AP_COEFF_INTERVAL) g.fail("cset", "ap_coeff_set_interval_top");
            for (int d = 0; d < 2; d++) for (int e = 0; e < 3; e++) { ap_coeff_t* m = ap_coeff_alloc_set(k); ap_coeff_discr_t dd = d ? AP_COEFF_INTERVAL : AP_COEFF_SCALAR; ap_scalar_discr_t sd = e == 0 ? AP_SCALAR_DOUBLE : e == 1 ? AP_SCALAR_MPQ : AP_SCALAR_MPFR; ap_coeff_reinit(m, dd, sd); bool ok = m->discr == dd && (d ? m->val.interval->inf->discr == sd && m->val.interval->sup->discr == sd : m->val.scalar->discr == sd); if (!ok) g.fail("reinit", "ap_coeff_reinit does not give the requested representation"); ap_coeff_free(m); }
            ap_coeff_free(k); }
          ap_interval_free(c); }
      { string s = prints([&](FILE* o) { ap_interval_fprint(o, a); }); size_t p = s.find(','); bool ok = s[0] == '[' && s.back() == ']' && p != string::npos; if (ok) { EQ l = parse(s.substr(1, p - 1)), h = parse(s.substr(p + 1, s.size() - p - 2)); auto near = [](const EQ& p, const EQ& q) { return p.inf || q.inf ? p.inf == q.inf : abs(p.v - q.v) <= abs(q.v) * P10(-18); }; ok = near(l, x.lo.e) && near(h, x.hi.e); } if (!ok) g.fail("print", "printed as " + s); }
      if (!isame(a, x)) g.fail("args", "argument changed");
      g.ok(ap_interval_hash(a)); ap_interval_free(a); } });
  R.group("arrays", [&](G& g) { for (size_t n = 0; n <= 6; n++) { if (!g.next([&] { return "array of " + std::to_string(n); })) continue; ap_interval_t** t = ap_interval_array_alloc(n); for (size_t i = 0; i < n; i++) { Itv v = interval_q(t[i]); if (!(v.scalar() && v.lo.v == 0)) g.fail("array", "element not [0,0]"); for (size_t j = 0; j < i; j++) if (t[i] == t[j]) g.fail("array", "shared element"); } ap_interval_array_free(t, n); g.ok(n); } });
  return R.run();
}
