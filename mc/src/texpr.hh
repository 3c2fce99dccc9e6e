// My own tree expressions: exact concrete evaluation with rounding, and construction of the APRON object.
#ifndef MC_TEXPR_HH
#define MC_TEXPR_HH
#include "base.hh"
#include <memory>
struct TE; typedef std::shared_ptr<TE> TEP;
struct TE { int kind; Itv c; size_t d; int op, rt, rd; TEP a, b; };
static const char* OPN[] = {"+", "-", "*", "/", "%", "^", "-", "cast", "sqrt"};
static const char* RTN[] = {"", "i", "f", "d", "l", "q"};
static const char* RDN[] = {"n", "0", "+oo", "-oo", "?"};
static inline string tes(const TEP& t) {
  if (t->kind == 0) return t->c.str(); if (t->kind == 1) return "x" + std::to_string(t->d);
  string r = t->rt ? string("_") + RTN[t->rt] + "," + RDN[t->rd] : "";
  if (t->op >= AP_TEXPR_NEG) return string(OPN[t->op]) + r + "(" + tes(t->a) + ")";
  return "(" + tes(t->a) + " " + OPN[t->op] + r + " " + tes(t->b) + ")";
}
static inline TEP tc(const Itv& i) { auto t = std::make_shared<TE>(); t->kind = 0; t->c = i; return t; }
static inline TEP tc(long n, long d = 1) { return tc(Itv(mkq(n, d))); }
static inline TEP td(size_t d) { auto t = std::make_shared<TE>(); t->kind = 1; t->d = d; return t; }
static inline TEP tb(int op, TEP a, TEP b, int rt = AP_RTYPE_REAL, int rd = AP_RDIR_RND) { auto t = std::make_shared<TE>(); t->kind = 2; t->op = op; t->a = a; t->b = b; t->rt = rt; t->rd = rd; return t; }
static inline TEP tu(int op, TEP a, int rt = AP_RTYPE_REAL, int rd = AP_RDIR_RND) { return tb(op, a, nullptr, rt, rd); }

static inline ap_texpr0_t* mk_texpr(const TEP& t, int rep = R_MPQ) {
  if (t->kind == 0) { ap_coeff_t c; ap_coeff_init(&c, AP_COEFF_SCALAR); set_coeff(&c, t->c, rep); ap_texpr0_t* r = ap_texpr0_cst(&c); ap_coeff_clear(&c); return r; }
  if (t->kind == 1) return ap_texpr0_dim(t->d);
  if (!t->b) return ap_texpr0_unop((ap_texpr_op_t)t->op, mk_texpr(t->a, rep), (ap_texpr_rtype_t)t->rt, (ap_texpr_rdir_t)t->rd);
  return ap_texpr0_binop((ap_texpr_op_t)t->op, mk_texpr(t->a, rep), mk_texpr(t->b, rep), (ap_texpr_rtype_t)t->rt, (ap_texpr_rdir_t)t->rd);
}
static inline mpz_class zfloor(const Q& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static inline mpz_class zceil(const Q& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
static inline Q pow2(long e) { Q r(1); if (e >= 0) mpz_mul_2exp(r.get_num_mpz_t(), r.get_num_mpz_t(), e); else mpz_mul_2exp(r.get_den_mpz_t(), r.get_den_mpz_t(), -e); return r; }
// round q to a multiple of 2^e in one direction (n,0,+,-)
static inline Q round_unit(const Q& q, long e, int rd) {
  Q u = pow2(e), t = q / u; mpz_class f = zfloor(t), c = zceil(t), r;
  switch (rd) {
  case AP_RDIR_UP: r = c; break; case AP_RDIR_DOWN: r = f; break;
  case AP_RDIR_ZERO: r = sgn(q) >= 0 ? f : c; break;
  default: { Q h = t - Q(f); int k = cmp(h, mkq(1, 2)); r = k < 0 ? f : k > 0 ? c : (mpz_even_p(f.get_mpz_t()) ? f : c); } }
  return Q(r) * u;
}
// false: overflow
static inline bool round_one(const Q& q, int rt, int rd, Q& out) {
  if (rt == AP_RTYPE_REAL) { out = q; return true; }
  if (rt == AP_RTYPE_INT) { out = round_unit(q, 0, rd); return true; }
  int p = rt == AP_RTYPE_SINGLE ? 24 : rt == AP_RTYPE_DOUBLE ? 53 : rt == AP_RTYPE_EXTENDED ? 64 : 113;
  long emin = rt == AP_RTYPE_SINGLE ? -149 : rt == AP_RTYPE_DOUBLE ? -1074 : rt == AP_RTYPE_EXTENDED ? -16445 : -16494;
  long emax = rt == AP_RTYPE_SINGLE ? 128 : rt == AP_RTYPE_DOUBLE ? 1024 : 16384;
  if (q == 0) { out = 0; return true; }
  // exponent: 2^(k-1) <= |q| < 2^k
  Q a = abs(q); long k = (long)mpz_sizeinbase(a.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(a.get_den_mpz_t(), 2);
  while (pow2(k) <= a) k++; while (pow2(k - 1) > a) k--;
  long e = std::max(k - p, emin);
  out = round_unit(q, e, rd);
  return abs(out) < pow2(emax);
}
static inline void addval(vector<Q>& v, const Q& q) { for (auto& x : v) if (x == q) return; if (v.size() < 12) v.push_back(q); }
static inline void round_all(const Q& q, int rt, int rd, vector<Q>& out) {
  Q r; if (rd == AP_RDIR_RND) { for (int d : {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN}) if (round_one(q, rt, d, r)) addval(out, r); }
  else if (round_one(q, rt, rd, r)) addval(out, r);
}
static inline bool qsqrt(const Q& q, Q& r) { if (q < 0) return false; if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false; mpz_sqrt(r.get_num_mpz_t(), q.get_num_mpz_t()); mpz_sqrt(r.get_den_mpz_t(), q.get_den_mpz_t()); return true; }
// a finite subset of the values the expression can take at a point (never an over-approximation)
static inline vector<Q> teval(const TEP& t, const Pt& x) {
  vector<Q> out;
  if (t->kind == 0) { if (t->c.scalar()) { out.push_back(t->c.lo.v); return out; }
    if (!t->c.lo.inf) addval(out, t->c.lo.v); if (!t->c.hi.inf) addval(out, t->c.hi.v);
    if (!t->c.lo.inf && !t->c.hi.inf) addval(out, (t->c.lo.v + t->c.hi.v) / 2);
    else if (!t->c.lo.inf) addval(out, t->c.lo.v + 5); else if (!t->c.hi.inf) addval(out, t->c.hi.v - 5); else { addval(out, Q(0)); addval(out, Q(-7)); addval(out, Q(9)); }
    return out; }
  if (t->kind == 1) { out.push_back(x[t->d]); return out; }
  vector<Q> A = teval(t->a, x);
  if (!t->b) { for (auto& a : A) switch (t->op) {
      case AP_TEXPR_NEG: addval(out, -a); break;
      case AP_TEXPR_CAST: round_all(a, t->rt, t->rd, out); break;
      case AP_TEXPR_SQRT: { Q r; if (qsqrt(a, r)) round_all(r, t->rt, t->rd, out); else if (a > 0 && t->rt != AP_RTYPE_REAL) { mpz_class z = zfloor(a * pow2(2400)); z = sqrt(z); round_all((Q(z) + mkq(1, 2)) * pow2(-1200), t->rt, t->rd, out); } break; } }  // an irrational root rounds like any number strictly between its neighbours
    return out; }
  vector<Q> B = teval(t->b, x);
  for (auto& a : A) for (auto& b : B) switch (t->op) {
    case AP_TEXPR_ADD: round_all(a + b, t->rt, t->rd, out); break;
    case AP_TEXPR_SUB: round_all(a - b, t->rt, t->rd, out); break;
    case AP_TEXPR_MUL: round_all(a * b, t->rt, t->rd, out); break;
    case AP_TEXPR_DIV: if (b != 0) round_all(a / b, t->rt, t->rd, out); break;
    case AP_TEXPR_MOD: if (b != 0) { Q q = a / b; Q tr; round_one(q, AP_RTYPE_INT, AP_RDIR_ZERO, tr); addval(out, a - b * tr); } break;
    case AP_TEXPR_POW: if (b.get_den() == 1 && b >= 0 && b <= 6) { Q r(1); for (long i = 0; i < b.get_num().get_si(); i++) r *= a; round_all(r, t->rt, t->rd, out); } break;
  }
  return out;
}
struct TCons { TEP e; int t; Q mod; string str() const { return tes(e) + CT[t] + (t == AP_CONS_EQMOD ? qs(mod) : ""); } };
static inline bool val_sat(const Q& v, int t, const Q& mod) {
  switch (t) { case AP_CONS_EQ: return v == 0; case AP_CONS_SUPEQ: return v >= 0; case AP_CONS_SUP: return v > 0; case AP_CONS_DISEQ: return v != 0;
  default: if (mod == 0) return v == 0; { Q q = v / mod; return q.get_den() == 1; } }
}
static inline bool tcons_may(const TCons& c, const Pt& x) { for (auto& v : teval(c.e, x)) if (val_sat(v, c.t, c.mod)) return true; return false; }
static inline ap_tcons0_array_t mk_tcons_array(const vector<TCons>& v, int rep = R_MPQ) {
  ap_tcons0_array_t a = ap_tcons0_array_make(v.size());
  for (size_t i = 0; i < v.size(); i++) { ap_scalar_t* m = NULL; if (v[i].t == AP_CONS_EQMOD) { m = ap_scalar_alloc(); set_scalar(m, EQ(v[i].mod), rep); } a.p[i] = ap_tcons0_make((ap_constyp_t)v[i].t, mk_texpr(v[i].e, rep), m); }
  return a;
}
static inline TEP te_of_lin(const Lin& e) {  // comb-like real tree
  TEP r = tc(e.k);
  for (size_t i = 0; i < e.c.size(); i++) if (!(e.c[i].scalar() && e.c[i].lo.v == 0)) r = tb(AP_TEXPR_ADD, r, tb(AP_TEXPR_MUL, tc(e.c[i]), td(i)));
  return r;
}
#endif
