// Exact rational views of APRON objects and the reference sets (PPL polyhedra) used as oracle.
#ifndef MC_BASE_HH
#define MC_BASE_HH
#include <ppl.hh>
#include <gmpxx.h>
#include <mpfr.h>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
#include <map>
#include <set>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
extern "C" {
#include "ap_global0.h"
#include "ap_global1.h"
}
namespace PPL = Parma_Polyhedra_Library;
typedef mpq_class Q;
typedef PPL::NNC_Polyhedron Poly;
typedef std::vector<Q> Pt;
static bool APPROX = false;   // the alphabet includes ap_abstract0_approximate
using std::string; using std::vector;

static inline string qs(const Q& q) { return q.get_str(); }
static inline string pts(const Pt& p) { string s = "("; for (size_t i = 0; i < p.size(); i++) s += (i ? "," : "") + qs(p[i]); return s + ")"; }
static inline Q mkq(long n, long d = 1) { Q q(n, d); q.canonicalize(); return q; }

// extended rational
struct EQ { int inf; Q v; // inf: -1,0,+1
  EQ() : inf(0), v(0) {} EQ(const Q& q) : inf(0), v(q) {} EQ(int s, bool) : inf(s), v(0) {} };
static inline EQ pinf() { return EQ(1, true); }
static inline EQ minf() { return EQ(-1, true); }
static inline int ecmp(const EQ& a, const EQ& b) { if (a.inf != b.inf) return a.inf < b.inf ? -1 : 1; if (a.inf) return 0; return cmp(a.v, b.v); }
static inline string es(const EQ& a) { return a.inf ? (a.inf > 0 ? "+oo" : "-oo") : qs(a.v); }

struct Itv { EQ lo, hi; Itv() {} Itv(const Q& a) : lo(a), hi(a) {} Itv(const EQ& a, const EQ& b) : lo(a), hi(b) {}
  bool scalar() const { return !lo.inf && !hi.inf && lo.v == hi.v; }
  bool top() const { return lo.inf < 0 && hi.inf > 0; }
  bool empty() const { return ecmp(lo, hi) > 0; }
  bool has(const Q& q) const { return ecmp(lo, EQ(q)) <= 0 && ecmp(EQ(q), hi) <= 0; }
  string str() const { return scalar() ? qs(lo.v) : "[" + es(lo) + "," + es(hi) + "]"; } };

// ---------- reading APRON scalars exactly ----------
static inline EQ scalar_q(const ap_scalar_t* s) {
  switch (s->discr) {
  case AP_SCALAR_DOUBLE: { double d = s->val.dbl; if (d != d) { EQ e; e.inf = 99; return e; } if (std::isinf(d)) return d > 0 ? pinf() : minf(); Q q; mpq_set_d(q.get_mpq_t(), d); return EQ(q); }
  case AP_SCALAR_MPQ: { if (mpz_sgn(mpq_denref(s->val.mpq)) == 0) { int g = mpz_sgn(mpq_numref(s->val.mpq)); if (!g) { EQ e; e.inf = 99; return e; } return g > 0 ? pinf() : minf(); } Q q; mpq_set(q.get_mpq_t(), s->val.mpq); q.canonicalize(); return EQ(q); }
  default: { if (mpfr_nan_p(s->val.mpfr)) { EQ e; e.inf = 99; return e; } if (mpfr_inf_p(s->val.mpfr)) return mpfr_sgn(s->val.mpfr) > 0 ? pinf() : minf(); Q q; mpfr_get_q(q.get_mpq_t(), s->val.mpfr); return EQ(q); }
  }
}
static inline bool isnan_eq(const EQ& e) { return e.inf == 99; }
static inline Itv interval_q(const ap_interval_t* i) { return Itv(scalar_q(i->inf), scalar_q(i->sup)); }
static inline Itv coeff_q(const ap_coeff_t* c) { if (c->discr == AP_COEFF_SCALAR) { EQ e = scalar_q(c->val.scalar); return Itv(e, e); } return interval_q(c->val.interval); }

// ---------- my own expressions ----------
struct Lin { vector<Itv> c; Itv k; bool scalar() const { for (auto& x : c) if (!x.scalar()) return false; return k.scalar(); }
  string str() const { string s; for (size_t i = 0; i < c.size(); i++) if (!(c[i].scalar() && c[i].lo.v == 0)) s += (s.empty() ? "" : "+") + c[i].str() + "x" + std::to_string(i); if (s.empty() || !(k.scalar() && k.lo.v == 0)) s += (s.empty() ? "" : "+") + k.str(); return s; } };
static const char* CT[] = {"=0", ">=0", ">0", "=0mod", "!=0"};
struct Cons { Lin e; int t; Q mod; string str() const { return e.str() + CT[t] + (t == AP_CONS_EQMOD ? qs(mod) : ""); } };

// how numbers are passed to the library
enum Rep { R_MPQ = 0, R_DBL = 1, R_MPFR = 2 };
static inline bool dyadic(const Q& q) { mpz_class d = q.get_den(); return mpz_popcount(d.get_mpz_t()) == 1 && mpz_sizeinbase(q.get_num_mpz_t(), 2) <= 53 && mpz_sizeinbase(d.get_mpz_t(), 2) < 60; }
static inline void set_scalar(ap_scalar_t* s, const EQ& e, int rep) {
  if (e.inf) { if (rep == R_DBL) ap_scalar_set_double(s, e.inf > 0 ? INFINITY : -INFINITY); else ap_scalar_set_infty(s, e.inf); return; }
  if (rep == R_DBL && dyadic(e.v)) { ap_scalar_set_double(s, e.v.get_d()); return; }
  if (rep == R_MPFR && dyadic(e.v)) { mpfr_t m; mpfr_init2(m, 113); mpfr_set_q(m, e.v.get_mpq_t(), MPFR_RNDN); ap_scalar_set_mpfr(s, m); mpfr_clear(m); return; }
  Q t = e.v; ap_scalar_set_mpq(s, t.get_mpq_t());
}
static inline ap_interval_t* mk_interval(const Itv& i, int rep = R_MPQ) { ap_interval_t* r = ap_interval_alloc(); set_scalar(r->inf, i.lo, rep); set_scalar(r->sup, i.hi, rep); return r; }
static inline void set_coeff(ap_coeff_t* c, const Itv& i, int rep) {
  if (i.scalar()) { ap_scalar_t* s = ap_scalar_alloc(); set_scalar(s, i.lo, rep); ap_coeff_set_scalar(c, s); ap_scalar_free(s); }
  else { ap_interval_t* t = mk_interval(i, rep); ap_coeff_set_interval(c, t); ap_interval_free(t); }
}
static inline ap_linexpr0_t* mk_linexpr(const Lin& e, bool sparse, int rep = R_MPQ) {
  size_t n = e.c.size();
  ap_linexpr0_t* r = ap_linexpr0_alloc(sparse ? AP_LINEXPR_SPARSE : AP_LINEXPR_DENSE, sparse ? 0 : n);
  ap_coeff_t* t = ap_coeff_alloc(AP_COEFF_SCALAR);
  for (size_t i = 0; i < n; i++) { if (sparse && e.c[i].scalar() && e.c[i].lo.v == 0) continue; set_coeff(t, e.c[i], rep); ap_linexpr0_set_coeff(r, i, t); }
  set_coeff(t, e.k, rep); ap_linexpr0_set_cst(r, t); ap_coeff_free(t);
  return r;
}
static inline ap_lincons0_t mk_lincons(const Cons& c, bool sparse, int rep = R_MPQ) {
  ap_scalar_t* m = NULL; if (c.t == AP_CONS_EQMOD) { m = ap_scalar_alloc(); set_scalar(m, EQ(c.mod), rep); }
  return ap_lincons0_make((ap_constyp_t)c.t, mk_linexpr(c.e, sparse, rep), m);
}
static inline ap_lincons0_array_t mk_lincons_array(const vector<Cons>& v, bool sparse, int rep = R_MPQ) {
  ap_lincons0_array_t a = ap_lincons0_array_make(v.size());
  for (size_t i = 0; i < v.size(); i++) a.p[i] = mk_lincons(v[i], sparse, rep);
  return a;
}
// reading a linear expression: n is the number of dimensions
static inline Lin read_linexpr(ap_linexpr0_t* e, size_t n) {
  Lin r; r.c.assign(n, Itv(Q(0))); r.k = coeff_q(&e->cst);
  if (e->discr == AP_LINEXPR_DENSE) { for (size_t i = 0; i < e->size && i < n; i++) r.c[i] = coeff_q(&e->p.coeff[i]); }
  else for (size_t i = 0; i < e->size; i++) { ap_dim_t d = e->p.linterm[i].dim; if (d == AP_DIM_MAX) continue; if (d >= n) throw std::runtime_error("dimension out of range in expression"); r.c[d] = coeff_q(&e->p.linterm[i].coeff); }
  return r;
}
static inline Cons read_lincons(ap_lincons0_t* c, size_t n) {
  Cons r; r.e = read_linexpr(c->linexpr0, n); r.t = c->constyp; r.mod = 0;
  if (c->scalar && c->constyp == AP_CONS_EQMOD) r.mod = scalar_q(c->scalar).v;
  return r;
}

// ---------- PPL helpers ----------
static inline PPL::Linear_Expression ppl_lin(const vector<Q>& c, const Q& k, size_t n) {
  mpz_class d = k.get_den(); for (auto& x : c) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), x.get_den_mpz_t());
  PPL::Linear_Expression e; if (n) e.set_space_dimension(n);
  for (size_t i = 0; i < c.size(); i++) { mpz_class v = c[i].get_num() * (d / c[i].get_den()); if (v != 0) e += PPL::Coefficient(v) * PPL::Variable(i); }
  mpz_class v = k.get_num() * (d / k.get_den()); e += PPL::Coefficient(v);
  return e;
}
static inline Poly universe(size_t n) { return Poly(n, PPL::UNIVERSE); }
static inline Poly emptyp(size_t n) { return Poly(n, PPL::EMPTY); }

// value of sup/inf of an interval linear form on a region where the sign of each variable is fixed (-1,0,+1; 2 = irrelevant)
// returns infinity flag or the linear form
struct LinB { bool inf; vector<Q> c; Q k; };
static inline LinB bound_form(const Lin& e, const vector<int>& sg, bool sup) {
  LinB r; r.inf = false; r.c.assign(e.c.size(), Q(0)); r.k = 0;
  for (size_t i = 0; i < e.c.size(); i++) {
    const Itv& v = e.c[i];
    if (v.scalar()) { r.c[i] = v.lo.v; continue; }
    if (sg[i] == 0) continue;
    const EQ& b = (sg[i] > 0) == sup ? v.hi : v.lo;
    if (b.inf) { r.inf = true; continue; }
    r.c[i] = b.v;
  }
  const EQ& b = sup ? e.k.hi : e.k.lo;
  if (b.inf) r.inf = true; else r.k = b.v;
  return r;
}
// enumerate sign patterns needed by a set of interval forms
static inline void signs(const vector<const Lin*>& es, size_t n, std::function<void(const vector<int>&, const Poly& region)> f) {
  vector<int> need(n, 0);
  for (auto e : es) for (size_t i = 0; i < e->c.size() && i < n; i++) if (!e->c[i].scalar()) need[i] = 1;
  vector<int> sg(n, 2);
  std::function<void(size_t, Poly)> rec = [&](size_t i, Poly p) {
    if (i == n) { f(sg, p); return; }
    if (!need[i]) { sg[i] = 2; rec(i + 1, p); return; }
    for (int s = -1; s <= 1; s++) { Poly q(p); PPL::Variable x(i); if (s < 0) q.add_constraint(x < 0); else if (s == 0) q.add_constraint(x == 0); else q.add_constraint(x > 0); sg[i] = s; rec(i + 1, q); }
  };
  rec(0, universe(n));
}
// disjuncts (as polyhedra of dimension n) of a constraint under the "may hold" semantics of interval coefficients.
// complete=false when only part of the solutions is returned (congruences).
static inline vector<Poly> cons_pieces(const Cons& c, size_t n, bool& complete) {
  vector<Poly> out;
  if (c.t == AP_CONS_EQMOD && c.mod != 0) {
    complete = false;
    for (int k = -4; k <= 4; k++) { Cons d = c; d.t = AP_CONS_EQ; Q s = c.mod * k; if (!d.e.k.lo.inf) d.e.k.lo.v -= s; if (!d.e.k.hi.inf) d.e.k.hi.v -= s; bool cc = true; for (auto& p : cons_pieces(d, n, cc)) out.push_back(p); }
    return out;
  }
  signs({&c.e}, n, [&](const vector<int>& sg, const Poly& reg) {
    LinB S = bound_form(c.e, sg, true), I = bound_form(c.e, sg, false);
    auto add = [&](Poly p) { if (!p.is_empty()) out.push_back(p); };
    int t = c.t == AP_CONS_EQMOD ? AP_CONS_EQ : c.t;
    if (t == AP_CONS_EQ) { Poly p(reg); if (!S.inf) p.add_constraint(ppl_lin(S.c, S.k, n) >= 0); if (!I.inf) p.add_constraint(ppl_lin(I.c, I.k, n) <= 0); add(p); }
    else if (t == AP_CONS_SUPEQ) { Poly p(reg); if (!S.inf) p.add_constraint(ppl_lin(S.c, S.k, n) >= 0); add(p); }
    else if (t == AP_CONS_SUP) { Poly p(reg); if (!S.inf) p.add_constraint(ppl_lin(S.c, S.k, n) > 0); add(p); }
    else { Poly p(reg); if (!S.inf) p.add_constraint(ppl_lin(S.c, S.k, n) > 0); add(p); Poly q(reg); if (!I.inf) q.add_constraint(ppl_lin(I.c, I.k, n) < 0); add(q); }
  });
  return out;
}
// may hold at a point
static inline Itv eval_itv(const Lin& e, const Pt& x) {
  EQ lo = e.k.lo, hi = e.k.hi;
  for (size_t i = 0; i < e.c.size(); i++) { if (x[i] == 0) continue; const EQ& a = x[i] > 0 ? e.c[i].lo : e.c[i].hi; const EQ& b = x[i] > 0 ? e.c[i].hi : e.c[i].lo;
    if (a.inf) lo = minf(); else if (!lo.inf) lo.v += a.v * x[i];
    if (b.inf) hi = pinf(); else if (!hi.inf) hi.v += b.v * x[i]; }
  return Itv(lo, hi);
}
static inline bool cons_may(const Cons& c, const Pt& x) {
  Itv v = eval_itv(c.e, x);
  switch (c.t) {
  case AP_CONS_EQ: return v.has(Q(0));
  case AP_CONS_SUPEQ: return v.hi.inf > 0 || v.hi.v >= 0;
  case AP_CONS_SUP: return v.hi.inf > 0 || v.hi.v > 0;
  case AP_CONS_DISEQ: return !(v.scalar() && v.lo.v == 0);
  default: { if (c.mod == 0) return v.has(Q(0)); if (v.lo.inf || v.hi.inf) return true; Q m = abs(c.mod); mpz_class f; Q t = v.lo.v / m; mpz_cdiv_q(f.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t()); return Q(f) * m <= v.hi.v; }
  }
}
static inline void add_cons(Poly& P, const Cons& c, size_t n) {   // over-approximation for unsupported shapes is never needed: scalar only
  vector<Q> k(n); for (size_t i = 0; i < n; i++) k[i] = c.e.c[i].lo.v;
  PPL::Linear_Expression e = ppl_lin(k, c.e.k.lo.v, n);
  if (c.t == AP_CONS_EQ) P.add_constraint(e == 0); else if (c.t == AP_CONS_SUPEQ) P.add_constraint(e >= 0); else if (c.t == AP_CONS_SUP) P.add_constraint(e > 0);
}
static inline EQ psup(const Poly& P, const vector<Q>& c, const Q& k, bool& att) {   // P non-empty
  size_t n = P.space_dimension(); mpz_class d = k.get_den(); for (auto& x : c) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), x.get_den_mpz_t());
  PPL::Linear_Expression e = ppl_lin(c, k, n); PPL::Coefficient sn, sd;
  if (!P.maximize(e, sn, sd, att)) { att = false; return pinf(); }
  Q r; mpq_set_num(r.get_mpq_t(), sn.get_mpz_t()); mpq_set_den(r.get_mpq_t(), sd.get_mpz_t()); r.canonicalize(); r /= Q(d); return EQ(r);
}
static inline EQ pinff(const Poly& P, const vector<Q>& c, const Q& k, bool& att) {
  vector<Q> m(c); for (auto& x : m) x = -x; EQ r = psup(P, m, -k, att); r.inf = -r.inf; r.v = -r.v; return r;
}
static inline bool poly_has(const Poly& P, const Pt& x) {
  for (auto& c : P.constraints()) { Q v; { mpz_class t(c.inhomogeneous_term()); v = t; } for (size_t i = 0; i < c.space_dimension(); i++) { mpz_class t(c.coefficient(PPL::Variable(i))); if (t != 0) v += Q(t) * x[i]; }
    if (c.is_equality() ? v != 0 : c.is_strict_inequality() ? v <= 0 : v < 0) return false; }
  return true;
}
static inline string polys(const Poly& P) { using PPL::IO_Operators::operator<<; std::ostringstream o; if (P.is_empty()) return "false"; o << P.minimized_constraints(); string s = o.str(); return s.empty() ? "true" : s; }
#endif
