// Numbers, bounds and intervals of one numeric back end (-DNUM_...), against exact rational arithmetic.
#include "numq.hh"
#include "flat.hh"
#include <float.h>
using flat::G; using flat::Runner;
typedef vector<EQ> EV;
#if defined(NUM_LONGDOUBLE)
static const bool B_LD = true;   // several functions go through double or 53-bit MPFR: sound, less precise
#else
static const bool B_LD = false;
#endif
static vector<Q> fin(int tier) {
  vector<Q> v; auto add = [&](Q q) { q.canonicalize(); if (!qrep(q)) return; for (auto& x : v) if (x == q) return; v.push_back(q); };
  for (auto s : {"0", "1", "-1", "2", "-2", "3", "-3", "1/2", "-1/2", "1/3", "-2/3", "5/2", "-7/3", "3/4", "7", "-10", "100", "9/4", "-27/8"}) add(Q(s));
  Q b31 = q2(31), b53 = q2(53);
  for (Q q : {Q(b31 - 1), Q(-b31), b31, Q(-b31 - 1), Q(b53 + 1), Q(-b53 - 1), Q(b53 - 1), q2(61), Q(-q2(61) + 1), Q(q2(64) + 1), Q(-q2(70) - 3), q2(-30), Q(-q2(-40)), Q(1 + q2(-52)), Q(-1 - q2(-52)), Q(1 - q2(-53)), q2(-149), q2(-150), Q(-q2(-151)), q2(-1074), Q(-q2(-1074)), q2(-1022), qdbl(FLT_MAX), Q(-qdbl(FLT_MAX)), Q(qdbl(FLT_MAX) + q2(103)), q2(128), qdbl(DBL_MAX), Q(-qdbl(DBL_MAX)), Q(q2(1024) + 1), Q(1 + q2(-60)), Q(q2(63) * 3 + q2(-1)), Q("123456789/1000000007"), Q("10000000000000000000000000001/3"), Q("-1/10"), Q(q2(24) + 1), Q(-q2(24) - 1), Q(1 + q2(-24)), Q(q2(40) + q2(-12))}) add(q);
  return v;
}
static vector<Q> smallfin() { vector<Q> v; for (auto s : {"0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "-3", "1/3", "-5/3", "5/2", "-7/4"}) { Q q(s); q.canonicalize(); if (qrep(q)) v.push_back(q); } if (!B_NATIVE || B_FLT) { for (Q q : {Q(1 + q2(-52)), Q(-q2(53) - 1), q2(70), qdbl(DBL_MAX), Q(-q2(-1074))}) if (qrep(q)) v.push_back(q); } return v; }
static EV withinf(const vector<Q>& v) { EV r; for (auto& q : v) r.push_back(EQ(q)); r.push_back(PINF()); r.push_back(MINF()); return r; }
static size_t bits(const Q& q) { return mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2); }
// native integers and rationals promise nothing when an intermediate overflows
static bool safe1(const EQ& a, size_t extra = 0) { return !B_NATIVE || B_FLT || a.inf || bits(a.v) + extra <= 60; }
static bool safe2(const EQ& a, const EQ& b) { if (!B_NATIVE || B_FLT) return true; size_t n = 0; if (!a.inf) n += bits(a.v); if (!b.inf) n += bits(b.v); return n <= 58; }
static bool fitsres(const EQ& r) { return !B_NATIVE || B_FLT || r.inf || (mpz_sizeinbase(r.v.get_num_mpz_t(), 2) <= 61 && mpz_sizeinbase(r.v.get_den_mpz_t(), 2) <= 61); }
static string two(const EQ& a, const EQ& b, int al) { return es(a) + " , " + es(b) + " alias" + std::to_string(al); }
static size_t hh(const string& s) { return std::hash<string>()(s); }

struct BinOp { const char* n; void (*f)(bound_t, bound_t, bound_t); bool (*ref)(const EQ&, const EQ&, EQ&); };
static bool r_add(const EQ& a, const EQ& b, EQ& r) { if (a.inf && b.inf && a.inf != b.inf) return false; r = a.inf ? a : b.inf ? b : EQ(a.v + b.v); return true; }
static bool r_sub(const EQ& a, const EQ& b, EQ& r) { return r_add(a, eneg(b), r); }
static bool r_mul(const EQ& a, const EQ& b, EQ& r) { int s = esgn(a) * esgn(b); if (!s) r = EQ(Q(0)); else if (a.inf || b.inf) r = EQ(s, true); else r = EQ(a.v * b.v); return true; }
static bool r_div(const EQ& a, const EQ& b, EQ& r) { if (!esgn(a) || b.inf) r = EQ(Q(0)); else if (!esgn(b)) r = EQ(esgn(a), true); else if (a.inf) r = EQ(esgn(a) * esgn(b), true); else r = EQ(a.v / b.v); return true; }
static bool r_min(const EQ& a, const EQ& b, EQ& r) { r = emin(a, b); return true; }
static bool r_max(const EQ& a, const EQ& b, EQ& r) { r = emax(a, b); return true; }
static bool r_wid(const EQ& a, const EQ& b, EQ& r) { r = b.inf > 0 || ecmp(a, b) < 0 ? PINF() : a; if (b.inf < 0 || a.inf < 0) return false; return true; }
struct UnOp { const char* n; void (*f)(bound_t, bound_t); EQ (*ref)(const EQ&); bool exact; };
static EQ u_dbl(const EQ& a) { return a.inf ? a : EQ(a.v * 2); }
static EQ u_half(const EQ& a) { return a.inf ? a : EQ(a.v / 2); }
static EQ u_abs(const EQ& a) { return esgn(a) < 0 ? eneg(a) : a; }
static EQ u_neg(const EQ& a) { return eneg(a); }
static EQ u_floor(const EQ& a) { return efloor(a); }
static EQ u_ceil(const EQ& a) { return eceil(a); }
static EQ u_trunc(const EQ& a) { return etrunc(a); }
static EQ u_id(const EQ& a) { return a; }
static EQ u_flt(const EQ& a) { if (a.inf) return a; EQ d = rnd_dbl(a.v, 1); return d.inf > 0 ? d : rnd_flt(d.inf < 0 ? qdbl(-DBL_MAX) : d.v, 1); }
static EQ u_dblr(const EQ& a) { return a.inf ? a : rnd_dbl(a.v, 1); }

static void num_groups(Runner& R) {
  const EV* A = new EV(withinf(fin(R.tier)));
  static BinOp bins[] = {{"add", bound_add, r_add}, {"sub", bound_sub, r_sub}, {"mul", bound_mul, r_mul}, {"div", bound_div, r_div}, {"min", bound_min, r_min}, {"max", bound_max, r_max}, {"widening", bound_widening, r_wid}};
  for (auto& B : bins) R.group(string("bound_") + B.n, [=](G& g) {
    for (auto& x : *A) for (auto& y : *A) { EQ ex; if (!B.ref(x, y, ex)) continue; if (!safe2(x, y)) continue; EQ want = ernd(ex, 1); if (!fitsres(want)) continue; if (B_INT && !strcmp(B.n, "div") && 0) continue;
      for (int al = 0; al < 4; al++) { if (al == 3 && ecmp(x, y)) continue; if (!g.next([&, al] { return two(x, y, al); })) continue;
        Bd a(PINF()), b(x), c(y); EQ r; bool can;
        if (al == 0) { B.f(a.b, b.b, c.b); r = getb(a.b); can = bcanon(a.b); if (ecmp(getb(b.b), x) || ecmp(getb(c.b), y)) g.fail("args", "operand changed"); }
        else if (al == 1) { B.f(b.b, b.b, c.b); r = getb(b.b); can = bcanon(b.b); if (ecmp(getb(c.b), y)) g.fail("args", "operand changed"); }
        else if (al == 2) { B.f(c.b, b.b, c.b); r = getb(c.b); can = bcanon(c.b); if (ecmp(getb(b.b), x)) g.fail("args", "operand changed"); }
        else { B.f(b.b, b.b, b.b); r = getb(b.b); can = bcanon(b.b); }
        if (r.inf == 99 || ecmp(r, want) < 0) g.fail("sound", "got " + es(r) + " below " + es(want)); else if (ecmp(r, want)) g.fail("precise", "got " + es(r) + " instead of " + es(want)); if (!can) g.fail("canon", "result " + es(r) + " not in canonical form"); g.ok(hh(es(r))); } } });
  // operations with a num_t operand
  struct NB { const char* n; void (*f)(bound_t, bound_t, num_t); bool (*ref)(const EQ&, const EQ&, EQ&); };
  static NB nbs[] = {{"add_num", bound_add_num, r_add}, {"sub_num", bound_sub_num, r_sub}, {"mul_num", bound_mul_num, r_mul}, {"div_num", bound_div_num, r_div}};
  for (auto& B : nbs) R.group(string("bound_") + B.n, [=](G& g) {
    for (auto& x : *A) for (auto& y : *A) { if (y.inf) continue; EQ ex; if (!B.ref(x, y, ex) || !safe2(x, y)) continue; EQ want = ernd(ex, 1); if (!fitsres(want)) continue;
      for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return two(x, y, al); })) continue; Bd a(MINF()), b(x); Nm c(y.v); bound_t* d = al ? &b.b : &a.b; B.f(*d, b.b, c.n); EQ r = getb(*d);
        if (r.inf == 99 || ecmp(r, want) < 0) g.fail("sound", "got " + es(r) + " below " + es(want)); else if (ecmp(r, want)) g.fail("precise", "got " + es(r) + " instead of " + es(want)); if (!bcanon(*d)) g.fail("canon", "not canonical"); if (ecmp(getn(c.n), y) || (!al && ecmp(getb(b.b), x))) g.fail("args", "operand changed"); g.ok(hh(es(r))); } } });
  struct UI { const char* n; void (*f)(bound_t, bound_t, unsigned long); int s; };
  static UI uis[] = {{"add_uint", bound_add_uint, 1}, {"sub_uint", bound_sub_uint, -1}};
  for (auto& B : uis) R.group(string("bound_") + B.n, [=](G& g) {
    for (auto& x : *A) for (unsigned long k : {0ul, 1ul, 7ul, 1ul << 31}) { EQ ex = x.inf ? x : EQ(x.v + B.s * Q(mpz_class(k))); EQ want = ernd(ex, 1); if (!safe1(x, 32) || !fitsres(want)) continue;
      for (int al = 0; al < 2; al++) { if (!g.next([&, al, k] { return two(x, EQ(Q(mpz_class(k))), al); })) continue; Bd a(MINF()), b(x); bound_t* d = al ? &b.b : &a.b; B.f(*d, b.b, k); EQ r = getb(*d); if (r.inf == 99 || ecmp(r, want) < 0) g.fail("sound", "got " + es(r) + " below " + es(want)); else if (ecmp(r, want)) g.fail("precise", "got " + es(r) + " instead of " + es(want)); if (!bcanon(*d)) g.fail("canon", "not canonical"); g.ok(hh(es(r))); } } });
  static UnOp uns[] = {{"neg", bound_neg, u_neg, 1}, {"abs", bound_abs, u_abs, 1}, {"mul_2", bound_mul_2, u_dbl, 1}, {"div_2", bound_div_2, u_half, 1}, {"floor", bound_floor, u_floor, 1}, {"ceil", bound_ceil, u_ceil, 1}, {"trunc", bound_trunc, u_trunc, 1}, {"set", bound_set, u_id, 1}, {"to_float", bound_to_float, u_flt, 1}, {"to_double", bound_to_double, u_dblr, 1}};
  for (auto& B : uns) R.group(string("bound_") + B.n, [=](G& g) {
    for (auto& x : *A) { EQ ex = B.ref(x); if (x.inf == 0 && ex.inf < 0) ex = EQ(!strcmp(B.n, "to_float") ? qdbl(-FLT_MAX) : qdbl(-DBL_MAX)); EQ want = ernd(ex, 1); if (!fitsres(want) || !safe1(x, 1)) continue; if (B_NATIVE && !B_FLT && strstr(B.n, "to_") && !x.inf && !fitsres(ex)) continue;
      for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return es(x) + " alias" + std::to_string(al); })) continue; Bd a(PINF()), b(x); bound_t* d = al ? &b.b : &a.b; B.f(*d, b.b); EQ r = getb(*d); if (r.inf == 99 || ecmp(r, want) < 0) g.fail("sound", "got " + es(r) + " below " + es(want)); else if (ecmp(r, want)) g.fail("precise", "got " + es(r) + " instead of " + es(want)); if (!bcanon(*d)) g.fail("canon", "not canonical"); if (!al && ecmp(getb(b.b), x)) g.fail("args", "operand changed"); g.ok(hh(es(r))); } } });
  R.group("bound_mul_2exp", [=](G& g) { for (auto& x : *A) for (int k : {0, 1, -1, 5, -7, 20, -20, 100, -100}) { EQ ex = x.inf ? x : EQ(x.v * q2(k)); EQ want = ernd(ex, 1); if (!fitsres(want) || !safe1(x, abs(k))) continue;
    for (int al = 0; al < 3; al++) { if (!g.next([&, al, k] { return es(x) + " 2^" + std::to_string(k) + " alias" + std::to_string(al); })) continue; Bd a(al == 2 ? PINF() : EQ(Q(0))), b(x); bound_t* d = al == 1 ? &b.b : &a.b; bound_mul_2exp(*d, b.b, k); EQ r = getb(*d); if (r.inf == 99 || ecmp(r, want) < 0) g.fail("sound", "got " + es(r) + " below " + es(want)); else if (ecmp(r, want)) g.fail("precise", "got " + es(r) + " instead of " + es(want)); if (!bcanon(*d)) g.fail("canon", "not canonical"); g.ok(hh(es(r))); } } });
  auto nextf = [](const Q& q, bool dbl) { EQ f = dbl ? rnd_dbl(q, 1) : rnd_flt(q, 1); if (f.inf > 0) return f; if (f.inf < 0) return EQ(dbl ? qdbl(-DBL_MAX) : qdbl(-FLT_MAX)); if (f.v > q) return f; double d = f.v.get_d(); return dbl ? edbl(nextafter(d, INFINITY)) : edbl(nextafterf((float)d, INFINITY)); };
  for (int dbl = 0; dbl < 2; dbl++) R.group(dbl ? "bound_next_double" : "bound_next_float", [=](G& g) { for (auto& x : *A) { EQ lo = x.inf ? PINF() : nextf(x.v, dbl); EQ hi = x.inf ? PINF() : lo.inf ? lo : nextf(lo.v, dbl); if (!hi.inf) hi = nextf(hi.v, dbl); if (!fitsres(ernd(lo, 1)) || !fitsres(ernd(hi, 1))) continue;
    for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return es(x) + " alias" + std::to_string(al); })) continue; Bd a(PINF()), b(x); bound_t* d = al ? &b.b : &a.b; (dbl ? bound_next_double : bound_next_float)(*d, b.b); EQ r = getb(*d); if (r.inf == 99 || ecmp(r, lo) < 0) g.fail("sound", "got " + es(r) + ", next is " + es(lo)); else if (!B_INT && ecmp(r, hi) > 0) g.fail("precise", "got " + es(r) + ", next is " + es(lo)); g.ok(hh(es(r))); } } });
  // two-sided roots and powers
  auto chk2 = [](G& g, const EQ& up, const EQ& dn, const EQ& eu, const EQ& ed, const char* what) {};
  R.group("bound_sqrt", [=](G& g) { for (auto& x : *A) { if (esgn(x) < 0 || !safe1(x, 0)) continue;
    for (int al = 0; al < 3; al++) { if (al == 1 && B_FLT) continue; if (!g.next([&, al] { return es(x) + " alias" + std::to_string(al); })) continue; Bd u(PINF()), d(PINF()), b(x); bound_t* pu = al == 1 ? &b.b : &u.b; bound_t* pd = al == 2 ? &b.b : &d.b; bound_sqrt(*pu, *pd, b.b); EQ up = getb(*pu), dn = getb(*pd); string m = "down " + es(dn) + " up " + es(up);
      if (x.inf) { if (up.inf <= 0 || up.inf == 99) g.fail("sound", m); continue; }
      if (up.inf == 99 || dn.inf == 99 || up.inf < 0 || dn.inf) { g.fail("sound", m); continue; }
      if ((!up.inf && (sgn(up.v) < 0 || up.v * up.v < x.v)) || (sgn(dn.v) > 0 && dn.v * dn.v > x.v)) g.fail("sound", m);
      else { // tightness: a perfect square is exact; otherwise the next representable inside is on the other side
        Q pq = x.v; mpz_class n = pq.get_num(), dd = pq.get_den(); bool perf = mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(dd.get_mpz_t()); if (perf) { mpz_class rn = sqrt(n), rd = sqrt(dd); Q s(rn, rd); s.canonicalize(); if (!B_LD && qrep(s) && (up.inf || up.v != s || dn.v != s)) g.fail("precise", m + " for the exact root " + s.get_str()); }
        if (B_INT && up.v - dn.v > 1) g.fail("precise", m); if (B_RAT && !perf && (up.v - dn.v) * Q(dd) > 1) g.fail("precise", m); if (B_FLT && !up.inf && up.v - dn.v > up.v * q2(-48) + q2(-1073)) g.fail("precise", m); }
      if (!bcanon(*pu) || !bcanon(*pd)) g.fail("canon", m); g.ok(hh(m)); } } });
  R.group("bound_pow", [=](G& g) { for (auto& x : *A) for (unsigned long n : {0ul, 1ul, 2ul, 3ul, 5ul, 8ul}) { EQ ex = x.inf ? ((n & 1) ? x : PINF()) : (bits(x.v) * n > 20000 ? EQ(99, true) : EQ(qpow(x.v, n))); if (ex.inf == 99) continue; if (B_NATIVE && !B_FLT && !x.inf && bits(x.v) > 124) continue; bool fit = fitsres(ex);
    for (int al = 0; al < 2; al++) { if (al == 1 && B_FLT) continue; if (!g.next([&, n, al] { return es(x) + " ^" + std::to_string(n) + " alias" + std::to_string(al); })) continue; Bd u(PINF()), d(PINF()), b(x); bound_pow(u.b, d.b, b.b, n); EQ up = getb(u.b), dn = getb(d.b); string m = "down " + es(dn) + " up " + es(up);
      if (x.inf) { if (n && (ecmp(up, ex) < 0 || ecmp(dn, ex) > 0)) g.fail("sound", m); continue; }
      if (up.inf == 99 || dn.inf == 99 || ecmp(up, ex) < 0 || ecmp(dn, ex) > 0) g.fail("sound", m + " for " + es(ex)); else if (!B_FLT && fit && (ecmp(up, ernd(ex, 1)) || ecmp(dn, ernd(ex, -1)))) g.fail("precise", m + " for " + es(ex));
      else if (B_FLT && !up.inf && !dn.inf) { Q w = abs(up.v) > abs(dn.v) ? abs(up.v) : abs(dn.v); Q d = up.v - dn.v; if (d > w * q2(-45) + q2(-1060)) g.fail("precise", m); } if (!bcanon(u.b) || !bcanon(d.b)) g.fail("canon", m); g.ok(hh(m)); } } });
  R.group("bound_root", [=](G& g) { for (auto& x : *A) for (unsigned long n : {1ul, 2ul, 3ul, 4ul, 5ul}) { if (!(n & 1) && esgn(x) < 0) continue; if (!safe1(x)) continue;
    if (!g.next([&, n] { return es(x) + " root " + std::to_string(n); })) continue; Bd u(PINF()), d(PINF()), b(x); bound_root(u.b, d.b, b.b, n); EQ up = getb(u.b), dn = getb(d.b); string m = "down " + es(dn) + " up " + es(up);
    if (x.inf) { if (ecmp(up, x) || ecmp(dn, x)) g.fail("sound", m); continue; }
    if (up.inf || dn.inf) { if (up.inf == 99 || dn.inf == 99 || up.inf < 0 || dn.inf > 0) g.fail("sound", m); else g.fail("precise", m); continue; }
    auto ge = [&](const Q& r) { return (n & 1) ? qpow(r, n) >= x.v : sgn(r) >= 0 && qpow(r, n) >= x.v; }; auto le = [&](const Q& r) { return (n & 1) ? qpow(r, n) <= x.v : sgn(r) < 0 || qpow(r, n) <= x.v; };
    if (!ge(up.v) || !le(dn.v)) g.fail("sound", m); else { if (B_INT && up.v - dn.v > 1) g.fail("precise", m); mpz_class a, c; Q ax = abs(x.v); bool pn = mpz_root(a.get_mpz_t(), ax.get_num_mpz_t(), n), pd = mpz_root(c.get_mpz_t(), ax.get_den_mpz_t(), n); if (pn && pd) { Q s(a, c); s.canonicalize(); if (sgn(x.v) < 0) s = -s; if (!B_LD && qrep(s) && (up.v != s || dn.v != s)) g.fail("precise", m + " for the exact root " + s.get_str()); } }
    if (!bcanon(u.b) || !bcanon(d.b)) g.fail("canon", m); g.ok(hh(m)); } });
  // tests
  R.group("bound_tests", [=](G& g) { for (auto& x : *A) for (auto& y : *A) { if (!safe2(x, y)) continue; if (!g.next([&] { return es(x) + " , " + es(y); })) continue; Bd b(x), c(y); auto sg = [](int k) { return k < 0 ? -1 : k > 0 ? 1 : 0; };
      int w = ecmp(x, y); if (sg(bound_cmp(b.b, c.b)) != sg(w)) g.fail("cmp", "bound_cmp " + std::to_string(bound_cmp(b.b, c.b))); if (bound_equal(b.b, c.b) != (w == 0)) g.fail("equal", "bound_equal"); if (w == 0 && bound_hash(b.b) != bound_hash(c.b)) g.fail("hash", "bound_hash");
      if (sg(bound_sgn(b.b)) != esgn(x)) g.fail("sgn", "bound_sgn"); if (bound_infty(b.b) != (x.inf != 0)) g.fail("infty", "bound_infty"); if (bound_integer(b.b) != (!x.inf && x.v.get_den() == 1)) g.fail("integer", "bound_integer");
      if (!y.inf) { Nm n(y.v); if (sg(bound_cmp_num(b.b, n.n)) != sg(w)) g.fail("cmp", "bound_cmp_num"); if (y.v.get_den() == 1 && mpz_fits_slong_p(y.v.get_num_mpz_t()) && (!B_FLT || mpz_sizeinbase(y.v.get_num_mpz_t(), 2) <= 53)) { if (sg(bound_cmp_int(b.b, mpz_get_si(y.v.get_num_mpz_t()))) != sg(w)) g.fail("cmp", "bound_cmp_int"); } 
        if (!x.inf) { Nm m(x.v); if (sg(num_cmp(m.n, n.n)) != sg(w) || num_equal(m.n, n.n) != (w == 0) || num_sgn(m.n) != esgn(x) || num_integer(m.n) != (x.v.get_den() == 1)) g.fail("cmp", "num tests"); Nm a, e; num_min(a.n, m.n, n.n); num_max(e.n, m.n, n.n); if (ecmp(getn(a.n), emin(x, y)) || ecmp(getn(e.n), emax(x, y))) g.fail("minmax", "num_min/num_max"); num_swap(m.n, n.n); if (ecmp(getn(m.n), y) || ecmp(getn(n.n), x)) g.fail("swap", "num_swap"); } }
      Bd p(x), q(y); bound_swap(p.b, q.b); if (ecmp(getb(p.b), y) || ecmp(getb(q.b), x)) g.fail("swap", "bound_swap"); bound_t z; bound_init_set(z, b.b); if (ecmp(getb(z), x)) g.fail("initset", "bound_init_set " + es(getb(z))); bound_clear(z); 
      bound_t arr[2], ar2[2]; bound_init_array(arr, 2); bound_init_array(ar2, 2); if (ecmp(getb(arr[0]), EQ(Q(0)))) g.fail("init", "bound_init"); setb(arr[0], x); setb(arr[1], y); bound_set_array(ar2, arr, 2); if (ecmp(getb(ar2[0]), x) || ecmp(getb(ar2[1]), y)) g.fail("setarray", "bound_set_array");
      { size_t mx = bound_serialized_size_array(arr, 2); char* buf = (char*)malloc(mx + 64); memset(buf, 0x5a, mx + 64); size_t k = bound_serialize_array(buf, arr, 2); if (k > mx) g.fail("serialize", "wrote " + std::to_string(k) + " bytes, announced " + std::to_string(mx)); setb(ar2[0], EQ(Q(1))); setb(ar2[1], PINF()); size_t k2 = bound_deserialize_array(ar2, buf, 2); if (k2 != k) g.fail("serialize", "wrote " + std::to_string(k) + " read " + std::to_string(k2)); EQ r0 = getb(ar2[0]), r1 = getb(ar2[1]); if (ecmp(r0, x) || ecmp(r1, y)) g.fail("serialize", "read back " + es(r0) + " , " + es(r1)); free(buf); }
      bound_clear_array(arr, 2); bound_clear_array(ar2, 2); g.ok(w); } });
  // conversions from scalars
  struct SV { ap_scalar_t* s; EQ v; };
  vector<Q> ex; { for (auto s : {"0", "1", "-1", "1/3", "-1/3", "7/2", "-7/2", "100000", "-1/10", "22/7"}) { Q q(s); q.canonicalize(); ex.push_back(q); } for (Q q : {Q(q2(53) + 1), Q(-q2(53) - 1), q2(61), q2(64), Q(q2(100) + 1), Q(-q2(100) - 1), q2(-1074), q2(-60), Q(1 + q2(-60)), Q(-1 - q2(-60)), qdbl(DBL_MAX), Q(-qdbl(DBL_MAX)), q2(1030), Q(q2(30) + q2(-20)), Q(Q(1) / 3 + q2(64)), Q(-q2(1030)), Q(q2(-1080))}) ex.push_back(q); }
  auto mks = [](ap_scalar_t* s, int kind, const Q& q) -> bool { if (kind == 0) { if (rnd_dbl(q, 1).inf || rnd_dbl(q, 1).v != q) return false; ap_scalar_set_double(s, q.get_d()); if (q == q2(-1074)) ap_scalar_set_double(s, 0x1p-1074); return true; } if (kind == 1) { Q t = q; ap_scalar_set_mpq(s, t.get_mpq_t()); return true; } int prec = kind == 2 ? 53 : kind == 3 ? 24 : 200; mpfr_t m; mpfr_init2(m, prec); int r = mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN); if (!r) { s->discr == AP_SCALAR_MPFR ? (void)0 : (void)0; ap_scalar_set_mpfr(s, m); mpfr_set_prec(s->val.mpfr, prec); mpfr_set_q(s->val.mpfr, q.get_mpq_t(), MPFR_RNDN); } mpfr_clear(m); return !r; };
  R.group("from_scalar", [=](G& g) { static const char* kn[] = {"double", "mpq", "mpfr53", "mpfr24", "mpfr200"};
    for (int kind = 0; kind < 5; kind++) for (size_t i = 0; i < ex.size() + 2; i++) { ap_scalar_t* s = ap_scalar_alloc(); EQ v; if (i >= ex.size()) { v = i == ex.size() ? PINF() : MINF(); ap_scalar_reinit(s, kind == 0 ? AP_SCALAR_DOUBLE : kind == 1 ? AP_SCALAR_MPQ : AP_SCALAR_MPFR); ap_scalar_set_infty(s, v.inf); } else { v = EQ(ex[i]); if (!mks(s, kind, ex[i])) { ap_scalar_free(s); continue; } }
      EQ want = ernd(v, 1); if (!v.inf && want.inf < 0) want = B_FLT ? EQ(qdbl(-DBL_MAX)) : want; if (!fitsres(want) || !safe1(v)) { ap_scalar_free(s); continue; }
      if (!g.next([&] { return string(kn[kind]) + " " + es(v); })) { ap_scalar_free(s); continue; }
      { Bd a(i & 1 ? PINF() : EQ(Q(5))); bool e = bound_set_ap_scalar(a.b, s); EQ r = getb(a.b); bool really = ecmp(r, v) == 0; if (r.inf == 99 || ecmp(r, v) < 0) g.fail("sound", "bound_set_ap_scalar gives " + es(r)); else if (ecmp(r, want)) g.fail("precise", "bound_set_ap_scalar gives " + es(r)); if (e && !really) g.fail("exact", "reported exact, got " + es(r)); if (!e && really) g.fail("inexact", "reported inexact, got " + es(r)); if (!bcanon(a.b)) g.fail("canon", "not canonical"); g.ok(hh(es(r))); }
      if (!v.inf) { Nm a; bool e = num_set_ap_scalar(a.n, s); EQ r = getn(a.n); bool really = ecmp(r, v) == 0; if (r.inf == 99 || ecmp(r, v) < 0) g.fail("sound", "num_set_ap_scalar gives " + es(r)); if (e && !really) g.fail("exact", "num_set_ap_scalar reported exact, got " + es(r));
        itv_internal_t* in = itv_internal_alloc(); It t; e = itv_set_ap_scalar(in, t.i, s); IV w = geti(t.i); if (ivnan(w) || !w.has(v)) g.fail("sound", "itv_set_ap_scalar gives " + w.str()); else if (!iveq(w, ivrnd(IV(v, v)))) g.fail("precise", "itv_set_ap_scalar gives " + w.str()); if (e && !w.point()) g.fail("exact", "itv_set_ap_scalar reported exact, got " + w.str());
        ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); ap_coeff_set_scalar(&c, s); e = itv_set_ap_coeff(in, t.i, &c); w = geti(t.i); if (ivnan(w) || !w.has(v)) g.fail("sound", "itv_set_ap_coeff gives " + w.str()); ap_coeff_clear(&c); itv_internal_free(in); }
      ap_scalar_free(s); } });
  R.group("from_interval", [=](G& g) { vector<EQ> E; for (auto& q : ex) E.push_back(EQ(q)); E.push_back(PINF()); E.push_back(MINF()); for (int k1 = 0; k1 < 5; k1 += 2) for (int k2 = 0; k2 < 5; k2++) for (auto& lo : E) for (auto& hi : E) { if (ecmp(lo, hi) > 0 || lo.inf > 0 || hi.inf < 0 || !safe1(lo) || !safe1(hi)) continue; ap_interval_t* v = ap_interval_alloc(); auto put = [&](ap_scalar_t* s, int k, const EQ& e) { if (!e.inf) return mks(s, k, e.v); ap_scalar_reinit(s, k == 0 ? AP_SCALAR_DOUBLE : k == 1 ? AP_SCALAR_MPQ : AP_SCALAR_MPFR); ap_scalar_set_infty(s, e.inf); return true; };
      IV w(lo, hi), want = ivrnd(w); if (!want.bot && B_FLT) { if (want.hi.inf < 0) want.hi = EQ(qdbl(-DBL_MAX)); if (want.lo.inf > 0) want.lo = EQ(qdbl(DBL_MAX)); } if (!fitsres(want.lo) || !fitsres(want.hi) || !put(v->inf, k1, lo) || !put(v->sup, k2, hi)) { ap_interval_free(v); continue; }
      if (!g.next([&] { return w.str() + " " + std::to_string(k1) + std::to_string(k2); })) { ap_interval_free(v); continue; }
      itv_internal_t* in = itv_internal_alloc(); It t; bool e = itv_set_ap_interval(in, t.i, v); IV r = geti(t.i); if (ivnan(r) || !ivsub(w, r)) g.fail("sound", "itv_set_ap_interval gives " + r.str()); else if (!iveq(r, want)) g.fail("precise", "itv_set_ap_interval gives " + r.str()); if (e && !iveq(r, w)) g.fail("exact", "reported exact, got " + r.str());
      ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_INTERVAL); ap_coeff_set_interval(&c, v); itv_set_ap_coeff(in, t.i, &c); r = geti(t.i); if (ivnan(r) || !ivsub(w, r)) g.fail("sound", "itv_set_ap_coeff gives " + r.str()); ap_coeff_clear(&c); itv_internal_free(in); ap_interval_free(v); g.ok(hh(r.str())); } });
  R.group("to_others", [=](G& g) { for (auto& x : *A) { if (!g.next([&] { return es(x); })) continue; Bd b(x); ap_scalar_t* s = ap_scalar_alloc(); bool e = ap_scalar_set_bound(s, b.b); EQ r; auto sq = [](ap_scalar_t* s) { if (s->discr == AP_SCALAR_DOUBLE) return edbl(s->val.dbl); if (s->discr == AP_SCALAR_MPQ) { int i = ap_scalar_infty(s); if (i) return EQ(i, true); return EQ(Q(s->val.mpq)); } if (mpfr_inf_p(s->val.mpfr)) return EQ(mpfr_sgn(s->val.mpfr), true); return EQ(qmpfr(s->val.mpfr)); };
      r = sq(s); if (ecmp(r, x) < 0) g.fail("sound", "ap_scalar_set_bound gives " + es(r)); if (e && ecmp(r, x)) g.fail("exact", "ap_scalar_set_bound reported exact, gives " + es(r)); g.ok(hh(es(r)));
      if (x.inf) { ap_scalar_free(s); continue; } Nm n(x.v); ap_scalar_set_num(s, n.n); r = sq(s); if (ecmp(r, x) < 0) g.fail("sound", "ap_scalar_set_num gives " + es(r));
      Q c = qceil(x.v); if (num_fits_int(n.n)) { long k; e = int_set_num(&k, n.n); if (Q(mpz_class(k)) != c) g.fail("sound", "int_set_num gives " + std::to_string(k)); if (e != (c == x.v)) g.fail("exact", "int_set_num reports exact=" + std::to_string(e)); } else if (c.get_num().fits_slong_p() && mpz_sizeinbase(c.get_num_mpz_t(), 2) < 62) g.fail("fits", "num_fits_int says no");
      mpz_class z; e = mpz_set_num(z.get_mpz_t(), n.n); if (B_LD ? Q(z) < c && c < qdbl(DBL_MAX) : Q(z) != c) g.fail("sound", "mpz_set_num gives " + z.get_str()); if (e != (Q(z) == x.v)) g.fail("exact", "mpz_set_num reports exact=" + std::to_string(e));
      Q q; e = mpq_set_num(q.get_mpq_t(), n.n); if (sgn(q.get_den()) == 0 || q < x.v) g.fail("sound", "mpq_set_num gives " + q.get_str()); if (e != (q == x.v)) g.fail("exact", "mpq_set_num reports exact=" + std::to_string(e) + " for " + q.get_str());
      double d; e = double_set_num(&d, n.n); EQ de = edbl(d); if (de.inf == 99 || ecmp(de, x) < 0 && !(de.inf < 0 && x.v < -qdbl(DBL_MAX))) g.fail("sound", "double_set_num gives " + es(de)); if (e && ecmp(de, x)) g.fail("exact", "double_set_num reports exact, gives " + es(de)); { EQ w = rnd_dbl(x.v, 1); if (num_fits_double(n.n) && de.inf && !w.inf) g.fail("fits", "num_fits_double but gives " + es(de)); if (!w.inf && ecmp(w, de)) g.fail("precise", "double_set_num gives " + es(de)); }
      for (int prec : {24, 53, 130}) { mpfr_t m; mpfr_init2(m, prec); e = mpfr_set_num(m, n.n); if (mpfr_nan_p(m) || (!mpfr_inf_p(m) && qmpfr(m) < x.v)) g.fail("sound", "mpfr_set_num rounds down"); if (e && (mpfr_inf_p(m) || qmpfr(m) != x.v)) g.fail("exact", "mpfr_set_num reports exact"); mpfr_clear(m); }
      // back from each type
      { Nm k; mpz_class cz = c.get_num(); if (mpz_fits_num(cz.get_mpz_t())) { bool e = num_set_mpz(k.n, cz.get_mpz_t()); EQ v = getn(k.n); if (v.inf || v.v < c || (e && v.v != c)) g.fail("sound", "num_set_mpz gives " + es(v)); } Q t = x.v; if (mpq_fits_num(t.get_mpq_t())) { bool e = num_set_mpq(k.n, t.get_mpq_t()); EQ v = getn(k.n); if (ecmp(v, x)) g.fail("sound", "num_set_mpq gives " + es(v)); if (!e) g.fail("exact", "num_set_mpq reports inexact"); } 
        if (x.v.get_den() <= 1000000 && c.get_num().fits_slong_p() && x.v.get_num().fits_slong_p() && safe1(x)) { bool e = num_set_int2(k.n, mpz_get_si(x.v.get_num_mpz_t()), mpz_get_si(x.v.get_den_mpz_t())); EQ v = getn(k.n); if (ecmp(v, x)) g.fail("sound", "num_set_int2 gives " + es(v)); } }
      // printing
      { char buf[4096]; num_snprint(buf, sizeof buf, n.n); if (!B_FLT) { Q p; if (p.set_str(buf, 10) || p != x.v) g.fail("print", string("prints ") + buf); } else { double pd = strtod(buf, NULL); if (std::isfinite(pd) && std::isfinite(x.v.get_d()) && fabs(x.v.get_d()) > 1e-300 && fabs(pd - x.v.get_d()) > 1e-10 * fabs(x.v.get_d())) g.fail("print", string("prints ") + buf); } bound_snprint(buf, sizeof buf, b.b); }
      ap_scalar_free(s); } });
}
// ---------- intervals ----------
static vector<IV> ivs(int tier) { vector<Q> F = smallfin(); std::sort(F.begin(), F.end()); vector<IV> v; v.push_back(BOT()); v.push_back(TOP()); for (size_t i = 0; i < F.size(); i++) { v.push_back(IV(EQ(F[i]), PINF())); v.push_back(IV(MINF(), EQ(F[i]))); for (size_t j = i; j < F.size(); j++) { if (!tier && F.size() > 13 && (j - i) % 3 == 2 && i % 2) continue; v.push_back(IV(EQ(F[i]), EQ(F[j]))); } } return v; }
static bool okiv(const IV& a) { return a.bot || (fitsres(a.lo) && fitsres(a.hi)); }
// exact hulls (operands non-empty)
static EQ em(const EQ& a, const EQ& b) { EQ r; r_mul(a, b, r); return r; }
static EQ ea(const EQ& a, const EQ& b) { EQ r; r_add(a, b, r); return r; }
static IV h_mul(const IV& a, const IV& b) { EQ c[4] = {em(a.lo, b.lo), em(a.lo, b.hi), em(a.hi, b.lo), em(a.hi, b.hi)}; IV r(c[0], c[0]); for (auto& x : c) { r.lo = emin(r.lo, x); r.hi = emax(r.hi, x); } return r; }
static IV h_div1(const IV& a, const IV& b) { EQ c[4]; int k = 0; for (auto& x : {a.lo, a.hi}) for (auto& y : {b.lo, b.hi}) { EQ r; r_div(x, y, r); if (x.inf && y.inf) r = EQ(Q(0)); c[k++] = r; }
  IV r(c[0], c[0]); for (auto& x : c) { r.lo = emin(r.lo, x); r.hi = emax(r.hi, x); }
  // an infinite numerator over an unbounded denominator reaches every magnitude
  for (auto& x : {a.lo, a.hi}) if (x.inf) { int s = x.inf * (esgn(b.lo) > 0 || (esgn(b.lo) == 0 && esgn(b.hi) > 0) ? 1 : -1); if (s > 0) r.hi = PINF(); else r.lo = MINF(); }
  return r; }
// hull of a/b for b without 0 (b.lo>0 or b.hi<0); for b touching 0 the set of quotients by non-zero elements
static bool h_div(const IV& a, const IV& b, IV& must) { if (esgn(b.lo) > 0 || esgn(b.hi) < 0) { must = h_div1(a, b); return true; } return false; }
static IV h_abs(const IV& a) { if (esgn(a.lo) >= 0) return a; if (esgn(a.hi) <= 0) return IV(eneg(a.hi), eneg(a.lo)); return IV(EQ(Q(0)), emax(eneg(a.lo), a.hi)); }
static EQ epow(const EQ& a, unsigned n) { if (!a.inf) return EQ(qpow(a.v, n)); return (n & 1) ? a : PINF(); }
static vector<Q> pts_in(const IV& a) { vector<Q> r; if (a.bot) return r; auto add = [&](const Q& q) { if (a.has(q)) r.push_back(q); }; for (auto s : {"0", "1", "-1", "2", "-2", "1/2", "-1/2", "3", "-3", "5/2", "-7/4", "7", "-7", "1/3", "-5/3", "9/5", "-29/10", "4", "-5", "100", "-100"}) { Q q(s); q.canonicalize(); add(q); } if (!a.lo.inf) { add(a.lo.v); add(qceil(a.lo.v)); add(a.lo.v + Q(1, 7)); } if (!a.hi.inf) { add(a.hi.v); add(qfloor(a.hi.v)); add(a.hi.v - Q(1, 7)); } return r; }
static void judge(G& g, const char* nm, itv_t i, const IV& must, bool tight, bool bottomok = false) { IV r = geti(i); if (ivnan(r) || !ivsub(must, r)) g.fail("sound", string(nm) + " gives " + (ivnan(r) ? string("NaN") : r.str()) + " which does not contain " + must.str()); else if (tight) { IV w = ivrnd(must); if (!iveq(r, w)) g.fail("precise", string(nm) + " gives " + r.str() + " instead of " + w.str()); } if (!iscanon(i)) g.fail("canon", string(nm) + " result not canonical"); g.ok(std::hash<string>()(r.str())); }
static void itv_groups(Runner& R) {
  const vector<IV>* V = new vector<IV>(ivs(R.tier)); static itv_internal_t* in = itv_internal_alloc();
  struct B2 { const char* n; std::function<void(itv_ptr, itv_ptr, itv_ptr)> f; std::function<bool(const IV&, const IV&, IV&, bool&)> ref; bool bot; };
  typedef itv_ptr P;
  static vector<B2> b2 = {
    {"add", [](P a, P b, P c) { itv_add(a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { r = IV(ea(a.lo, b.lo), ea(a.hi, b.hi)); return true; }, false},
    {"sub", [](P a, P b, P c) { itv_sub(a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { r = IV(ea(a.lo, eneg(b.hi)), ea(a.hi, eneg(b.lo))); return true; }, false},
    {"mul", [](P a, P b, P c) { itv_mul(in, a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { r = h_mul(a, b); return true; }, false},
    {"div", [](P a, P b, P c) { itv_div(in, a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { if (h_div(a, b, r)) return true; t = false; if (b.point() && !esgn(b.lo)) { r = BOT(); return true; } 
        r = BOT(); for (auto& x : pts_in(a)) for (auto& y : pts_in(b)) if (y != 0) { EQ q(Q(x / y)); r = ivjoin(r, IV(q, q)); } if (esgn(a.lo) || esgn(a.hi)) { if (esgn(b.hi) > 0) { if (esgn(a.hi) > 0) r = ivjoin(r, IV(EQ(Q(1)), PINF())); } } return true; }, false},
    {"join", [](P a, P b, P c) { itv_join(a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { r = ivjoin(a, b); return true; }, true},
    {"meet", [](P a, P b, P c) { itv_meet(in, a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { r = ivmeet(a, b); if (r.bot) r = BOT(); return true; }, false},
    {"widening", [](P a, P b, P c) { itv_widening(a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { if (a.bot) r = b; else if (b.bot) r = a; else r = IV(ecmp(b.lo, a.lo) < 0 ? MINF() : a.lo, ecmp(b.hi, a.hi) > 0 ? PINF() : a.hi); return true; }, true},
    {"mod_real", [](P a, P b, P c) { itv_mod(in, a, b, c, false); }, [](const IV& a, const IV& b, IV& r, bool& t) { t = false; r = BOT(); for (auto& x : pts_in(a)) for (auto& y : pts_in(b)) if (y != 0) { EQ q(Q(x - y * qtrunc(Q(x / y)))); r = ivjoin(r, IV(q, q)); } return true; }, false},
    {"mod_int", [](P a, P b, P c) { itv_mod(in, a, b, c, true); }, [](const IV& a, const IV& b, IV& r, bool& t) { t = false; r = BOT(); for (auto& x : pts_in(a)) if (x.get_den() == 1) for (auto& y : pts_in(b)) if (y != 0 && y.get_den() == 1) { EQ q(Q(x - y * qtrunc(Q(x / y)))); r = ivjoin(r, IV(q, q)); } return true; }, false},
    {"pow", [](P a, P b, P c) { itv_pow(in, a, b, c); }, [](const IV& a, const IV& b, IV& r, bool& t) { t = false; r = BOT(); for (unsigned k = 0; k < 4; k++) { Q e = k; if (!b.has(e)) continue; t = b.point() && !B_FLT && k > 0 && !B_NATIVE; IV m = (k & 1) ? a : h_abs(a); r = ivjoin(r, k ? IV(epow(m.lo, k), epow(m.hi, k)) : IV(EQ(Q(1)), EQ(Q(1)))); } return true; }, false}};
  for (size_t bi = 0; bi < b2.size(); bi++) R.group(string("itv_") + b2[bi].n, [=](G& g) { auto& o = b2[bi]; bool mod = !strncmp(o.n, "mod", 3);
    for (auto& x : *V) for (auto& y : *V) { if ((x.bot || y.bot) && !o.bot) continue; IV must; bool t = true; if (!safe2(x.bot ? EQ(Q(0)) : emax(u_abs(x.lo), u_abs(x.hi)), y.bot ? EQ(Q(0)) : emax(u_abs(y.lo), u_abs(y.hi)))) continue; if (!strcmp(o.n, "pow") && !(y.point() && y.lo.v.get_den() == 1) && !y.top() && y.lo.inf) continue;
      if (!o.ref(x, y, must, t)) continue; if (!okiv(must)) continue; if (B_NATIVE && !B_FLT && mod && (x.lo.inf || x.hi.inf) && 0) continue;
      for (int al = 0; al < 4; al++) { if (al == 3 && !iveq(x, y)) continue; if (!g.next([&, al] { return x.str() + " , " + y.str() + " alias" + std::to_string(al); })) continue; It a, b(x), c(y); P d = al == 0 ? a.i : al == 2 ? c.i : b.i; P arg2 = al == 3 ? b.i : c.i; o.f(d, b.i, arg2); IV mm = must; if (must.bot && strcmp(o.n, "meet") && strcmp(o.n, "join") && strcmp(o.n, "widening")) { g.ok(0); continue; }
        judge(g, o.n, d, mm, t); if (al != 1 && al != 3 && !iveq(geti(b.i), x)) g.fail("args", "first operand became " + geti(b.i).str()); if (al != 2 && al != 3 && !iveq(geti(c.i), y)) g.fail("args", "second operand became " + geti(c.i).str());
        if (mod) { // documented range: |x mod y| <= |y|, sign of x
          IV r = geti(d); IV ay = h_abs(y); if (!r.bot && !r.top() && !ivnan(r)) { IV lim(esgn(x.lo) < 0 ? eneg(ay.hi) : EQ(Q(0)), esgn(x.hi) >= 0 ? ay.hi : EQ(Q(0))); if (esgn(ay.lo) && !ivsub(r, ivrnd(lim))) g.fail("precise", string(o.n) + " gives " + r.str() + " beyond " + lim.str()); } } } } });
  R.group("itv_inv_pow", [=](G& g) { vector<IV> os = {TOP(), IV(EQ(Q(0)), PINF()), IV(MINF(), EQ(Q(0))), IV(EQ(Q(-2)), EQ(Q(3))), IV(EQ(Q(1)), EQ(Q(2))), IV(EQ(Q(-3)), EQ(Q(-1))), IV(EQ(Q(0)), EQ(Q(0)))}; for (auto& o : os) for (auto& x : *V) for (int n = 1; n < 4; n++) { if (x.bot) continue; if (!safe1(x.lo, 4) || !safe1(x.hi, 4)) continue; if (!g.next([&, n] { return "org " + o.str() + " val " + x.str() + " root " + std::to_string(n); })) continue;
      It a, org(o), b(x), e(IV{EQ(Q(n)), EQ(Q(n))}); itv_inv_pow(in, a.i, org.i, b.i, e.i); IV r = geti(a.i); if (ivnan(r)) { g.fail("sound", "NaN"); continue; } for (auto& p : pts_in(o)) if (x.has(qpow(p, n)) && !r.has(p)) g.fail("sound", "gives " + r.str() + " which does not contain " + p.get_str()); if (!iveq(geti(b.i), x) || !iveq(geti(org.i), o)) g.fail("args", "operand changed"); g.ok(hh(r.str())); } });
  struct B1 { const char* n; std::function<void(P, P)> f; std::function<bool(const IV&, IV&, bool&)> ref; };
  static auto ints = [](const IV& b, EQ& lo, EQ& hi) { lo = eceil(b.lo); hi = efloor(b.hi); return ecmp(lo, hi) <= 0; };
  static auto fl = [](const EQ& e, int dir) { return e.inf ? e : rnd_flt(e.v, dir); }; static auto dl = [](const EQ& e, int dir) { return e.inf ? e : rnd_dbl(e.v, dir); };
  static vector<B1> b1 = {
    {"neg", [](P a, P b) { itv_neg(a, b); }, [](const IV& a, IV& r, bool& t) { r = IV(eneg(a.hi), eneg(a.lo)); return true; }},
    {"abs", [](P a, P b) { itv_abs(a, b); }, [](const IV& a, IV& r, bool& t) { r = h_abs(a); return true; }},
    {"set", [](P a, P b) { itv_set(a, b); }, [](const IV& a, IV& r, bool& t) { r = a; return true; }},
    {"ceil", [](P a, P b) { itv_ceil(a, b); }, [](const IV& a, IV& r, bool& t) { r = IV(eceil(a.lo), eceil(a.hi)); return true; }},
    {"floor", [](P a, P b) { itv_floor(a, b); }, [](const IV& a, IV& r, bool& t) { r = IV(efloor(a.lo), efloor(a.hi)); return true; }},
    {"trunc", [](P a, P b) { itv_trunc(a, b); }, [](const IV& a, IV& r, bool& t) { r = IV(etrunc(a.lo), etrunc(a.hi)); return true; }},
    {"to_int", [](P a, P b) { itv_to_int(a, b); }, [](const IV& a, IV& r, bool& t) { r = IV(efloor(a.lo), eceil(a.hi)); return true; }},
    {"to_float", [](P a, P b) { itv_to_float(a, b); }, [](const IV& a, IV& r, bool& t) { t = false; r = IV(fl(a.lo, -1), fl(a.hi, 1)); return true; }},
    {"to_double", [](P a, P b) { itv_to_double(a, b); }, [](const IV& a, IV& r, bool& t) { t = false; r = IV(dl(a.lo, -1), dl(a.hi, 1)); return true; }},
    {"mul_2exp3", [](P a, P b) { itv_mul_2exp(a, b, 3); }, [](const IV& a, IV& r, bool& t) { r = h_mul(a, IV(EQ(Q(8)), EQ(Q(8)))); return true; }},
    {"mul_2exp-2", [](P a, P b) { itv_mul_2exp(a, b, -2); }, [](const IV& a, IV& r, bool& t) { r = h_mul(a, IV(EQ(Q(1, 4)), EQ(Q(1, 4)))); return true; }}};
  for (size_t bi = 0; bi < b1.size(); bi++) R.group(string("itv_") + b1[bi].n, [=](G& g) { auto& o = b1[bi]; for (auto& x : *V) { if (x.bot) continue; IV must; bool t = true; if (!o.ref(x, must, t) || !okiv(ivrnd(must)) || !safe1(x.lo, 6) || !safe1(x.hi, 6)) continue; for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return x.str() + " alias" + std::to_string(al); })) continue; It a, b(x); P d = al ? b.i : a.i; o.f(d, b.i); judge(g, o.n, d, must, t); if (!al && !iveq(geti(b.i), x)) g.fail("args", "operand changed"); } } });
  // preimages: every candidate point whose image falls in b must be in the result
  struct U1 { const char* n; std::function<void(P, P)> f; std::function<vector<Q>(const Q&)> img; };
  static auto one = [](const Q& q) { return vector<Q>{q}; };
  static auto fimg = [](const Q& x, bool dbl) { vector<Q> r; for (int d = -1; d <= 1; d += 2) { EQ e = dbl ? rnd_dbl(x, d) : rnd_flt(x, d); if (!e.inf) r.push_back(e.v); } return r; };
  static vector<U1> u1 = {
    {"unceil", [](P a, P b) { itv_unceil(a, b); }, [](const Q& x) { return one(qceil(x)); }}, {"unfloor", [](P a, P b) { itv_unfloor(a, b); }, [](const Q& x) { return one(qfloor(x)); }}, {"untrunc", [](P a, P b) { itv_untrunc(a, b); }, [](const Q& x) { return one(qtrunc(x)); }},
    {"from_int", [](P a, P b) { itv_from_int(a, b); }, [](const Q& x) { return vector<Q>{qfloor(x), qceil(x)}; }},
    {"from_float", [](P a, P b) { itv_from_float(a, b); }, [](const Q& x) { return fimg(x, false); }}, {"from_double", [](P a, P b) { itv_from_double(a, b); }, [](const Q& x) { return fimg(x, true); }}};
  for (size_t bi = 0; bi < u1.size(); bi++) R.group(string("itv_") + u1[bi].n, [=](G& g) { auto& o = u1[bi]; for (auto& x : *V) { if (x.bot || !safe1(x.lo, 2) || !safe1(x.hi, 2)) continue; for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return x.str() + " alias" + std::to_string(al); })) continue; It a, b(x); P d = al ? b.i : a.i; o.f(d, b.i); IV r = geti(d); if (ivnan(r)) { g.fail("sound", "NaN"); continue; }
      vector<Q> cand; for (auto& p : pts_in(TOP())) cand.push_back(p); for (auto& e : {x.lo, x.hi}) if (!e.inf) for (auto s : {"-1", "-9/10", "-1/2", "-1/10", "0", "1/10", "1/2", "9/10", "1"}) { Q q(s); q.canonicalize(); cand.push_back(e.v + q); } if (bi >= 4) for (auto& e : {x.lo, x.hi}) if (!e.inf) for (int k : {-30, -60, -160, -1080}) { cand.push_back(e.v + q2(k)); cand.push_back(e.v - q2(k)); cand.push_back(e.v * (1 + q2(k))); cand.push_back(e.v * (1 - q2(k))); }
      for (auto& c : cand) { if (B_INT && c.get_den() != 1) continue; for (auto& y : o.img(c)) if (x.has(y) && !r.has(c)) g.fail("sound", string(o.n) + " gives " + r.str() + " but " + c.get_str() + " maps to " + y.get_str()); } g.ok(hh(r.str())); } } });
  R.group("itv_sqrt", [=](G& g) { for (auto& x : *V) { if (x.bot) continue; if (!safe1(x.lo) || !safe1(x.hi)) continue; for (int al = 0; al < 2; al++) { if (!g.next([&, al] { return x.str() + " alias" + std::to_string(al); })) continue; It a, b(x); P d = al ? b.i : a.i; bool e = itv_sqrt(in, d, b.i); IV r = geti(d); if (ivnan(r)) { g.fail("sound", "NaN"); continue; } if (esgn(x.hi) < 0) { if (!r.bot) g.fail("precise", "gives " + r.str()); continue; }
      if (r.bot) { g.fail("sound", "gives empty"); continue; } bool lok = esgn(x.lo) <= 0 ? ecmp(r.lo, EQ(Q(0))) <= 0 : r.lo.inf < 0 || (!r.lo.inf && (sgn(r.lo.v) <= 0 || r.lo.v * r.lo.v <= x.lo.v)); bool hok = r.hi.inf > 0 || (!x.hi.inf && sgn(r.hi.v) >= 0 && r.hi.v * r.hi.v >= x.hi.v); if (!lok || !hok) g.fail("sound", "gives " + r.str()); else if (esgn(r.lo) < 0 || (x.hi.inf == 0 && r.hi.inf)) g.fail("precise", "gives " + r.str());
      if (e && !x.hi.inf && (r.hi.inf || r.hi.v * r.hi.v != x.hi.v || (esgn(x.lo) > 0 && r.lo.v * r.lo.v != x.lo.v))) g.fail("exact", "reported exact, gives " + r.str()); if (!al && !iveq(geti(b.i), x)) g.fail("args", "operand changed"); g.ok(hh(r.str())); } } });
  R.group("itv_scaled", [=](G& g) { vector<Q> F = smallfin(); for (auto& x : *V) for (auto& k : F) for (int op = 0; op < 9; op++) { if (x.bot) continue; IV kk{EQ(k), EQ(k)}; EQ mx = emax(u_abs(x.lo), u_abs(x.hi)); if (!safe2(mx, EQ(k))) continue; IV must; switch (op) { case 0: case 4: must = h_mul(x, kk); break; case 1: case 5: if (k == 0) continue; must = h_div1(x, kk); break; case 2: case 6: must = IV(ea(x.lo, EQ(k)), ea(x.hi, EQ(k))); break; case 3: case 7: must = IV(ea(x.lo, EQ(-k)), ea(x.hi, EQ(-k))); break; case 8: if (k < 0) continue; must = IV(ea(x.lo, EQ(-k)), ea(x.hi, EQ(k))); } if (!okiv(ivrnd(must))) continue;
      static const char* nm[] = {"mul_num", "div_num", "add_num", "sub_num", "mul_bound", "div_bound", "add_bound", "sub_bound", "enlarge_bound"};
      for (int al = 0; al < 2; al++) { if (!g.next([&, al, op] { return string(nm[op]) + " " + x.str() + " " + k.get_str() + " alias" + std::to_string(al); })) continue; It a, b(x); P d = al ? b.i : a.i; Nm n(k); Bd bb{EQ(k)}; switch (op) { case 0: itv_mul_num(d, b.i, n.n); break; case 1: itv_div_num(d, b.i, n.n); break; case 2: itv_add_num(d, b.i, n.n); break; case 3: itv_sub_num(d, b.i, n.n); break; case 4: itv_mul_bound(d, b.i, bb.b); break; case 5: itv_div_bound(d, b.i, bb.b); break; case 6: itv_add_bound(d, b.i, bb.b); break; case 7: itv_sub_bound(d, b.i, bb.b); break; case 8: itv_enlarge_bound(d, b.i, bb.b); break; }
        judge(g, nm[op], d, must, true); if (ecmp(getn(n.n), EQ(k)) || ecmp(getb(bb.b), EQ(k)) || (!al && !iveq(geti(b.i), x))) g.fail("args", "operand changed"); } } });
  R.group("itv_tests", [=](G& g) { for (auto& x : *V) for (auto& y : *V) { if (!safe2(x.bot ? EQ(Q(0)) : emax(u_abs(x.lo), u_abs(x.hi)), y.bot ? EQ(Q(0)) : emax(u_abs(y.lo), u_abs(y.hi)))) continue; if (!g.next([&] { return x.str() + " , " + y.str(); })) continue; It a(x), b(y); auto ck = [&](const char* n, bool got, bool want) { if (got != want) g.fail("test", string(n) + " answers " + (got ? "true" : "false")); };
      ck("is_leq", itv_is_leq(a.i, b.i), ivsub(x, y)); ck("is_eq", itv_is_eq(a.i, b.i), iveq(x, y)); if (iveq(x, y) && itv_hash(a.i) != itv_hash(b.i)) g.fail("hash", "itv_hash"); ck("is_bottom", itv_is_bottom(in, a.i), x.bot); ck("is_canonical_bottom", itv_is_canonical_bottom(a.i), x.bot); if (!x.bot) { ck("is_top", itv_is_top(a.i), x.top()); ck("is_point", itv_is_point(in, a.i), x.point()); ck("is_zero", itv_is_zero(a.i), x.point() && x.lo.v == 0); ck("is_pos", itv_is_pos(a.i), esgn(x.lo) >= 0); ck("is_neg", itv_is_neg(a.i), esgn(x.hi) <= 0); bool ii = (x.lo.inf || x.lo.v.get_den() == 1) && (x.hi.inf || x.hi.v.get_den() == 1); ck("is_int", itv_is_int(in, a.i), ii);
        Bd m; itv_magnitude(m.b, a.i); EQ w = emax(u_abs(x.lo), u_abs(x.hi)); if (ecmp(getb(m.b), w)) g.fail("precise", "magnitude " + es(getb(m.b))); itv_range_abs(m.b, a.i); w = ea(x.hi, eneg(x.lo)); if (ecmp(getb(m.b), ernd(w, 1))) g.fail("precise", "range_abs " + es(getb(m.b)));
        It c(x); bool bt = itv_canonicalize(in, c.i, false); ck("canonicalize", bt, false); if (!iveq(geti(c.i), x)) g.fail("sound", "canonicalize changes the interval"); bt = itv_canonicalize(in, c.i, true); IV zi(eceil(x.lo), efloor(x.hi)); ck("canonicalize int", bt, zi.bot); if (!zi.bot && !iveq(geti(c.i), zi)) g.fail("sound", "canonicalize integer gives " + geti(c.i).str());
        // raw empty interval: y.lo..x.hi
        if (!y.bot && ecmp(y.lo, x.hi) > 0) { It e; setb(e.i->inf, eneg(y.lo)); setb(e.i->sup, x.hi); if (!itv_canonicalize(in, e.i, false)) g.fail("test", "canonicalize misses an empty interval"); }
        // conversion to APRON
        ap_interval_t* ai = ap_interval_alloc(); bool e = ap_interval_set_itv(in, ai, a.i); auto sq = [](ap_scalar_t* s) { int f = ap_scalar_infty(s); if (f) return EQ(f, true); if (s->discr == AP_SCALAR_DOUBLE) return edbl(s->val.dbl); if (s->discr == AP_SCALAR_MPQ) return EQ(Q(s->val.mpq)); return EQ(qmpfr(s->val.mpfr)); }; EQ lo = sq(ai->inf), hi = sq(ai->sup); if (ecmp(lo, x.lo) > 0 || ecmp(hi, x.hi) < 0) g.fail("sound", "ap_interval_set_itv gives [" + es(lo) + "," + es(hi) + "]"); if (e && (ecmp(lo, x.lo) || ecmp(hi, x.hi))) g.fail("exact", "ap_interval_set_itv reports exact"); ap_interval_free(ai);
        ap_coeff_t co; ap_coeff_init(&co, AP_COEFF_SCALAR); e = ap_coeff_set_itv(in, &co, a.i); if (co.discr == AP_COEFF_SCALAR) lo = hi = sq(co.val.scalar); else lo = sq(co.val.interval->inf), hi = sq(co.val.interval->sup); if (ecmp(lo, x.lo) > 0 || ecmp(hi, x.hi) < 0) g.fail("sound", "ap_coeff_set_itv gives [" + es(lo) + "," + es(hi) + "]"); if (e && (ecmp(lo, x.lo) || ecmp(hi, x.hi))) g.fail("exact", "ap_coeff_set_itv reports exact"); ap_coeff_clear(&co); }
      g.ok(ivsub(x, y)); } });
  R.group("itv_set", [=](G& g) { vector<Q> F = smallfin(); for (auto& p : F) for (auto& q : F) { if (!g.next([&] { return p.get_str() + " " + q.get_str(); })) continue; Nm a(p), b(q); It t; itv_set_num(t.i, a.n); judge(g, "set_num", t.i, IV(EQ(p), EQ(p)), true); if (p <= q) { itv_set_num2(t.i, a.n, b.n); judge(g, "set_num2", t.i, IV(EQ(p), EQ(q)), true); if (ecmp(getn(a.n), EQ(p))) g.fail("args", "set_num2 changes its argument"); } if (p >= 0) { itv_set_unit_num(t.i, a.n); judge(g, "set_unit_num", t.i, IV(EQ(-p), EQ(p)), true); Bd c{EQ(p)}; itv_set_unit_bound(t.i, c.b); judge(g, "set_unit_bound", t.i, IV(EQ(-p), EQ(p)), true); }
      if (p.get_den() == 1 && q.get_den() == 1 && abs(p) < 1000 && abs(q) < 1000) { long i = mpz_get_si(p.get_num_mpz_t()), j = mpz_get_si(q.get_num_mpz_t()); itv_set_int(t.i, i); judge(g, "set_int", t.i, IV(EQ(p), EQ(p)), true); if (i <= j) { itv_set_int2(t.i, i, j); judge(g, "set_int2", t.i, IV(EQ(p), EQ(q)), true); } }
      itv_set_bottom(t.i); if (!geti(t.i).bot) g.fail("sound", "set_bottom"); itv_set_top(t.i); if (!geti(t.i).top()) g.fail("sound", "set_top"); It u(IV(EQ(p), PINF())), v(IV(MINF(), EQ(q))); itv_swap(u.i, v.i); if (!iveq(geti(u.i), IV(MINF(), EQ(q))) || !iveq(geti(v.i), IV(EQ(p), PINF()))) g.fail("sound", "itv_swap"); char buf[4096]; if (!B_FLT) { It w(IV(EQ(emin(EQ(p), EQ(q)).v), EQ(emax(EQ(p), EQ(q)).v))); itv_snprint(buf, sizeof buf, w.i); string want = "[" + emin(EQ(p), EQ(q)).v.get_str() + "," + emax(EQ(p), EQ(q)).v.get_str() + "]"; if (want != buf) g.fail("print", string("prints ") + buf); } } });
}
int main(int argc, char** argv) {
  fesetround(FE_UPWARD); Runner R(argc, argv); R.dom = BK; num_groups(R); itv_groups(R); return R.run();
}
