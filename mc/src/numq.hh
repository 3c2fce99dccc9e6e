// One numeric back end (selected by -DNUM_...) seen through exact rationals.
#ifndef MC_NUMQ_HH
#define MC_NUMQ_HH
#include <gmpxx.h>
#include <mpfr.h>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
extern "C++" {
#include "itv.h"
#include "itv_linexpr.h"
#include "itv_linearize.h"
}
#ifndef MC_BASE_HH
typedef mpq_class Q; using std::string; using std::vector;
struct EQ { int inf; Q v; EQ() : inf(0), v(0) {} EQ(const Q& q) : inf(0), v(q) {} EQ(int s, bool) : inf(s), v(0) {} };
static inline int ecmp(const EQ& a, const EQ& b) { if (a.inf != b.inf) return a.inf < b.inf ? -1 : 1; if (a.inf) return 0; return cmp(a.v, b.v); }
static inline string es(const EQ& a) { return a.inf == 99 ? "NaN" : a.inf ? (a.inf > 0 ? "+oo" : "-oo") : a.v.get_str(); }
#endif
static inline EQ PINF() { return EQ(1, true); }
static inline EQ MINF() { return EQ(-1, true); }
static inline EQ eneg(EQ a) { a.inf = -a.inf; a.v = -a.v; return a; }
static inline EQ emin(const EQ& a, const EQ& b) { return ecmp(a, b) <= 0 ? a : b; }
static inline EQ emax(const EQ& a, const EQ& b) { return ecmp(a, b) >= 0 ? a : b; }
static inline int esgn(const EQ& a) { return a.inf ? (a.inf > 0 ? 1 : -1) : sgn(a.v); }
static inline Q qfloor(const Q& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(r); }
static inline Q qceil(const Q& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(r); }
static inline Q qtrunc(const Q& q) { return sgn(q) >= 0 ? qfloor(q) : qceil(q); }
static inline EQ efloor(EQ a) { if (!a.inf) a.v = qfloor(a.v); return a; }
static inline EQ eceil(EQ a) { if (!a.inf) a.v = qceil(a.v); return a; }
static inline EQ etrunc(EQ a) { if (!a.inf) a.v = qtrunc(a.v); return a; }
static inline Q qpow(const Q& b, unsigned long n) { Q r = 1; for (unsigned long i = 0; i < n; i++) r *= b; return r; }
static inline Q q2(int e) { Q r = 1; mpz_class z; mpz_ui_pow_ui(z.get_mpz_t(), 2, abs(e)); if (e >= 0) r = Q(z); else r = Q(1) / Q(z); return r; }
static inline Q qmpfr(mpfr_t m) { Q q; mpfr_get_q(q.get_mpq_t(), m); return q; }
static inline Q qdbl(double d) { Q q; mpq_set_d(q.get_mpq_t(), d); return q; }
static inline EQ edbl(double d) { if (d != d) return EQ(99, true); if (std::isinf(d)) return d > 0 ? PINF() : MINF(); return EQ(qdbl(d)); }
// round to a double / float, upwards (dir>0) or downwards
static inline EQ rnd_dbl(const Q& q, int dir) { if (sgn(q) == 0) return EQ(Q(0)); mpfr_t m; mpfr_init2(m, 53); mpfr_set_q(m, q.get_mpq_t(), dir > 0 ? MPFR_RNDU : MPFR_RNDD); double d = mpfr_get_d(m, dir > 0 ? MPFR_RNDU : MPFR_RNDD); mpfr_clear(m); return edbl(d); }
static inline EQ rnd_flt(const Q& q, int dir) { if (sgn(q) == 0) return EQ(Q(0)); mpfr_t m; mpfr_init2(m, 24); mpfr_set_q(m, q.get_mpq_t(), dir > 0 ? MPFR_RNDU : MPFR_RNDD); float d = mpfr_get_flt(m, dir > 0 ? MPFR_RNDU : MPFR_RNDD); mpfr_clear(m); return edbl(d); }
static inline EQ rnd_ld(const Q& q, int dir) { if (sgn(q) == 0) return EQ(Q(0)); mpfr_t m; mpfr_init2(m, 64); mpfr_set_q(m, q.get_mpq_t(), dir > 0 ? MPFR_RNDU : MPFR_RNDD); long double d = mpfr_get_ld(m, dir > 0 ? MPFR_RNDU : MPFR_RNDD); if (std::isinf(d)) { mpfr_clear(m); return d > 0 ? PINF() : MINF(); } mpfr_set_ld(m, d, MPFR_RNDN); Q r = qmpfr(m); mpfr_clear(m); return EQ(r); }

#if defined(NUM_LONGINT)
#define BK "Il"
#elif defined(NUM_LONGLONGINT)
#define BK "Ill"
#elif defined(NUM_MPZ)
#define BK "MPZ"
#elif defined(NUM_LONGRAT)
#define BK "Rl"
#elif defined(NUM_LONGLONGRAT)
#define BK "Rll"
#elif defined(NUM_MPQ)
#define BK "MPQ"
#elif defined(NUM_DOUBLE)
#define BK "D"
#elif defined(NUM_LONGDOUBLE)
#define BK "Dl"
#elif defined(NUM_MPFR)
#define BK "MPFR"
#endif
#if defined(NUM_NUMINT)
static const bool B_INT = true, B_RAT = false, B_FLT = false;
#elif defined(NUM_NUMRAT)
static const bool B_INT = false, B_RAT = true, B_FLT = false;
#else
static const bool B_INT = false, B_RAT = false, B_FLT = true;
#endif
#if defined(NUM_NATIVE)
static const bool B_NATIVE = true;
#else
static const bool B_NATIVE = false;
#endif
static inline bool zfits(const mpz_class& z) { return mpz_sizeinbase(z.get_mpz_t(), 2) <= 62; }
static inline long long z2ll(const mpz_class& z) { return (long long)mpz_get_si(z.get_mpz_t()); }
// is q representable as a num_t
static inline bool qrep(const Q& q) {
  if (B_INT) { if (q.get_den() != 1) return false; return !B_NATIVE || zfits(q.get_num()); }
  if (B_RAT) return !B_NATIVE || (zfits(q.get_num()) && zfits(q.get_den()));
#if defined(NUM_DOUBLE)
  EQ e = rnd_dbl(q, 1); return !e.inf && e.v == q;
#elif defined(NUM_LONGDOUBLE)
  EQ e = rnd_ld(q, 1); return !e.inf && e.v == q;
#elif defined(NUM_MPFR)
  mpfr_t m; mpfr_init2(m, mpfr_get_default_prec()); int r = mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDU); mpfr_clear(m); return r == 0;
#else
  return true;
#endif
}
// smallest representable >= q (dir>0), greatest representable <= q (dir<0)
static inline EQ qrnd(const Q& q, int dir) {
  if (B_INT) return EQ(dir > 0 ? qceil(q) : qfloor(q));
  if (B_RAT) return EQ(q);
#if defined(NUM_DOUBLE)
  return rnd_dbl(q, dir);
#elif defined(NUM_LONGDOUBLE)
  return rnd_ld(q, dir);
#else
  if (sgn(q) == 0) return EQ(Q(0)); mpfr_t m; mpfr_init2(m, mpfr_get_default_prec()); mpfr_set_q(m, q.get_mpq_t(), dir > 0 ? MPFR_RNDU : MPFR_RNDD); Q r = qmpfr(m); mpfr_clear(m); return EQ(r);
#endif
}
static inline EQ ernd(const EQ& e, int dir) { return e.inf ? e : qrnd(e.v, dir); }
static inline bool erep(const EQ& e) { return e.inf || qrep(e.v); }
// ---- reading and writing num_t / bound_t directly ----
static inline void setn(num_t a, const Q& q) {
#if defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
  *a = z2ll(q.get_num());
#elif defined(NUM_MPZ)
  mpz_set(a, q.get_num_mpz_t());
#elif defined(NUM_LONGRAT) || defined(NUM_LONGLONGRAT)
  *a->n = z2ll(q.get_num()); *a->d = z2ll(q.get_den());
#elif defined(NUM_MPQ)
  mpq_set(a, q.get_mpq_t());
#elif defined(NUM_DOUBLE)
  *a = q.get_d();
#elif defined(NUM_LONGDOUBLE)
  { mpfr_t m; mpfr_init2(m, 64); mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDU); *a = mpfr_get_ld(m, MPFR_RNDU); mpfr_clear(m); }
#else
  mpfr_set_q(a, q.get_mpq_t(), MPFR_RNDU);
#endif
}
static inline EQ getn(num_t a) {
#if defined(NUM_LONGINT) || defined(NUM_LONGLONGINT)
  return EQ(Q(mpz_class((long)*a)));
#elif defined(NUM_MPZ)
  return EQ(Q(mpz_class(a)));
#elif defined(NUM_LONGRAT) || defined(NUM_LONGLONGRAT)
  if (*a->d == 0) return *a->n == 0 ? EQ(99, true) : *a->n > 0 ? PINF() : MINF(); { Q q(mpz_class((long)*a->n), mpz_class((long)*a->d)); q.canonicalize(); return EQ(q); }
#elif defined(NUM_MPQ)
  if (mpz_sgn(mpq_denref(a)) == 0) { int g = mpz_sgn(mpq_numref(a)); return g == 0 ? EQ(99, true) : g > 0 ? PINF() : MINF(); } { Q q(a); q.canonicalize(); return EQ(q); }
#elif defined(NUM_DOUBLE)
  return edbl(*a);
#elif defined(NUM_LONGDOUBLE)
  if (*a != *a) return EQ(99, true); if (std::isinf(*a)) return *a > 0 ? PINF() : MINF(); { mpfr_t m; mpfr_init2(m, 64); mpfr_set_ld(m, *a, MPFR_RNDN); Q q = qmpfr(m); mpfr_clear(m); return EQ(q); }
#else
  if (mpfr_nan_p(a)) return EQ(99, true); if (mpfr_inf_p(a)) return mpfr_sgn(a) > 0 ? PINF() : MINF(); { Q q = qmpfr(a); return EQ(q); }
#endif
}
static inline bool canon(num_t a) {   // canonical internal form of rationals
#if defined(NUM_LONGRAT) || defined(NUM_LONGLONGRAT)
  if (*a->d == 0) return *a->n == 1 || *a->n == -1; mpz_class n((long)*a->n), d((long)*a->d); return d > 0 && gcd(n, d) == 1;
#elif defined(NUM_MPQ)
  if (mpz_sgn(mpq_denref(a)) == 0) return mpz_cmpabs_ui(mpq_numref(a), 1) == 0; mpz_class n(mpq_numref(a)), d(mpq_denref(a)); return d > 0 && gcd(n, d) == 1;
#else
  return true;
#endif
}
static inline void setb(bound_t b, const EQ& e) {
  if (e.inf) {
#if defined(NUM_NUMFLT) && !defined(NUM_MPFR)
    *b = e.inf > 0 ? INFINITY : -INFINITY;
#elif defined(NUM_MPFR)
    mpfr_set_inf(b, e.inf);
#elif defined(NUM_MAX)
    *b = e.inf > 0 ? NUM_MAX : -NUM_MAX;
#elif defined(NUM_NUMRAT)
    numint_set_int(numrat_numref(b), e.inf > 0 ? 1 : -1); numint_set_int(numrat_denref(b), 0);
#else
    num_set_int(b->num, e.inf); b->inf = 1;
#endif
    return; }
  setn(bound_numref(b), e.v);
#if defined(BOUND_NUM_INF)
  b->inf = 0;
#endif
}
static inline EQ getb(bound_t b) {
#if defined(BOUND_NUM_INF)
  if (b->inf) { int g = num_sgn(b->num); return g == 0 ? EQ(99, true) : g > 0 ? PINF() : MINF(); }
#elif defined(NUM_MAX) && !defined(NUM_NUMFLT)
  if (*b >= NUM_MAX) return PINF(); if (*b <= -NUM_MAX) return MINF();
#endif
  return getn(bound_numref(b));
}
static inline bool bcanon(bound_t b) { return canon(bound_numref(b)); }
struct Nm { num_t n; Nm() { num_init(n); } ~Nm() { num_clear(n); } explicit Nm(const Q& q) { num_init(n); setn(n, q); } Nm(const Nm&) = delete; };
struct Bd { bound_t b; Bd() { bound_init(b); } ~Bd() { bound_clear(b); } explicit Bd(const EQ& e) { bound_init(b); setb(b, e); } Bd(const Bd&) = delete; };
struct IV { EQ lo, hi; bool bot; IV() : bot(false) {} IV(const EQ& a, const EQ& b) : lo(a), hi(b), bot(ecmp(a, b) > 0) {} string str() const { return bot ? "[]" : "[" + es(lo) + "," + es(hi) + "]"; }
  bool has(const EQ& x) const { return !bot && ecmp(lo, x) <= 0 && ecmp(x, hi) <= 0; } bool has(const Q& x) const { return has(EQ(x)); } bool top() const { return !bot && lo.inf < 0 && hi.inf > 0; } bool point() const { return !bot && !lo.inf && !hi.inf && lo.v == hi.v; } };
static inline IV BOT() { IV r; r.bot = true; r.lo = EQ(Q(1)); r.hi = EQ(Q(-1)); return r; }
static inline IV TOP() { return IV(MINF(), PINF()); }
static inline bool ivsub(const IV& a, const IV& b) { return a.bot || (!b.bot && ecmp(b.lo, a.lo) <= 0 && ecmp(a.hi, b.hi) <= 0); }
static inline bool iveq(const IV& a, const IV& b) { return a.bot == b.bot && (a.bot || (ecmp(a.lo, b.lo) == 0 && ecmp(a.hi, b.hi) == 0)); }
static inline IV ivrnd(const IV& a) { return a.bot ? a : IV(ernd(a.lo, -1), ernd(a.hi, 1)); }
static inline IV ivjoin(const IV& a, const IV& b) { return a.bot ? b : b.bot ? a : IV(emin(a.lo, b.lo), emax(a.hi, b.hi)); }
static inline IV ivmeet(const IV& a, const IV& b) { return a.bot || b.bot ? BOT() : IV(emax(a.lo, b.lo), emin(a.hi, b.hi)); }
struct It { itv_t i; It() { itv_init(i); } ~It() { itv_clear(i); } explicit It(const IV& v) { itv_init(i); set(v); } It(const It&) = delete;
  void set(const IV& v) { if (v.bot) { setb(i->inf, EQ(Q(-1))); setb(i->sup, EQ(Q(-1))); } else { setb(i->inf, eneg(v.lo)); setb(i->sup, v.hi); } } };
static inline IV geti(itv_t i) { EQ a = getb(i->inf), b = getb(i->sup); if (a.inf == 99 || b.inf == 99) { IV r; r.lo = EQ(99, true); r.hi = EQ(99, true); return r; } return IV(eneg(a), b); }
static inline bool ivnan(const IV& a) { return a.lo.inf == 99; }
static inline bool iscanon(itv_t i) { return bcanon(i->inf) && bcanon(i->sup); }
#endif
