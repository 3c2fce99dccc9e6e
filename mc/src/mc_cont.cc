// Linear expressions, constraints, generators, tree expressions and dimension objects against plain vectors (C16).
#include "base.hh"
#include "texpr.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
typedef std::map<size_t, Itv> Map;      // non-zero coefficients
static bool ieq(const Itv& a, const Itv& b) { return !ecmp(a.lo, b.lo) && !ecmp(a.hi, b.hi); }
static Itv I0() { return Itv(Q(0)); }
static bool izero(const Itv& a) { return ieq(a, I0()); }
static Itv I(long a, long b) { return Itv(EQ(Q(a)), EQ(Q(b))); }
static string ms(const Map& m, const Itv& k) { string s; for (auto& x : m) s += x.second.str() + "x" + std::to_string(x.first) + "+"; return s + k.str(); }
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
template <class F> static string prints(F f) { char* p = NULL; size_t n = 0; FILE* o = open_memstream(&p, &n); f(o); fclose(o); string r(p, n); free(p); return r; }
// the value denoted by an expression, read field by field; empty string on success
static string read(ap_linexpr0_t* e, Map& m, Itv& k) {
  m.clear(); k = coeff_q(&e->cst);
  if (e->discr == AP_LINEXPR_DENSE) { for (size_t i = 0; i < e->size; i++) { Itv v = coeff_q(&e->p.coeff[i]); if (!izero(v)) m[i] = v; } return ""; }
  if (e->discr != AP_LINEXPR_SPARSE) return "bad discriminant";
  bool end = false; long last = -1;
  for (size_t i = 0; i < e->size; i++) { size_t d = e->p.linterm[i].dim; if (d == AP_DIM_MAX) { end = true; continue; } if (end) return "term after free slots"; if ((long)d <= last) return "terms not sorted"; last = d; Itv v = coeff_q(&e->p.linterm[i].coeff); if (!izero(v)) m[d] = v; }
  return ""; }
static bool meq(const Map& a, const Map& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto y = b.find(x.first); if (y == b.end() || !ieq(x.second, y->second)) return false; } return true; }
// ---- builders ----
enum { F_DENSE, F_SPARSE, F_ZEROS, F_SLOTS, F_NUM };
static const char* FN[] = {"dense", "sparse", "sparse+zeros", "sparse+slots"};
static void setc(ap_coeff_t* c, const Itv& v, int rep, bool single) { if (single && v.scalar()) { ap_interval_t* t = ap_interval_alloc(); set_scalar(t->inf, v.lo, rep); set_scalar(t->sup, v.hi, rep); ap_coeff_set_interval(c, t); ap_interval_free(t); } else set_coeff(c, v, rep); }
static ap_linexpr0_t* build(const vector<Itv>& c, const Itv& k, int form, int rep = R_MPQ, bool single = false) {
  size_t n = c.size(), nz = 0; for (auto& x : c) if (!izero(x)) nz++;
  ap_linexpr0_t* e = form == F_DENSE ? ap_linexpr0_alloc(AP_LINEXPR_DENSE, n) : ap_linexpr0_alloc(AP_LINEXPR_SPARSE, form == F_SPARSE ? 0 : form == F_ZEROS ? n : nz + 2);
  ap_coeff_t* t = ap_coeff_alloc(AP_COEFF_SCALAR); size_t j = 0;
  for (size_t i = 0; i < n; i++) { if (form != F_DENSE && form != F_ZEROS && izero(c[i])) continue; setc(t, c[i], rep, single);
    if (form == F_DENSE) ap_coeff_set(&e->p.coeff[i], t); else if (form == F_SPARSE) ap_coeff_set(ap_linexpr0_coeffref(e, i), t); else { e->p.linterm[j].dim = i; ap_coeff_set(&e->p.linterm[j].coeff, t); j++; } }
  setc(t, k, rep, single); ap_coeff_set(&e->cst, t); ap_coeff_free(t); return e; }
static Map mapof(const vector<Itv>& c) { Map m; for (size_t i = 0; i < c.size(); i++) if (!izero(c[i])) m[i] = c[i]; return m; }
// every query of an expression against the vector; n: number of dimensions to look at
static void check(G& g, ap_linexpr0_t* e, const Map& m, const Itv& k, long densesize, const string& what) {
  Map r; Itv rk; string err = read(e, r, rk); if (!err.empty()) { g.fail("layout", what + ": " + err); return; }
  if (!meq(r, m) || !ieq(rk, k)) { g.fail("value", what + " gives " + ms(r, rk) + " expected " + ms(m, k)); return; }
  if ((densesize >= 0) != (e->discr == AP_LINEXPR_DENSE)) g.fail("kind", what + ": representation changed");
  if (densesize >= 0 && (long)ap_linexpr0_size(e) != densesize) g.fail("size", what + ": size " + std::to_string(ap_linexpr0_size(e)));
  ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR);
  for (size_t d = 0; d < 5; d++) { ap_coeff_set_scalar_int(c, 77); bool b = ap_linexpr0_get_coeff(c, e, d); bool none = densesize >= 0 && (long)d >= densesize; if (b != none) g.fail("get", what + ": ap_linexpr0_get_coeff returns " + std::to_string(b)); if (!none) { auto it = m.find(d); if (!ieq(coeff_q(c), it == m.end() ? I0() : it->second)) g.fail("get", what + ": coefficient of x" + std::to_string(d) + " read as " + coeff_q(c).str()); } }
  if (densesize < 0 && !ap_linexpr0_get_coeff(c, e, AP_DIM_MAX)) g.fail("get", what + ": coefficient of AP_DIM_MAX accepted");
  ap_linexpr0_get_cst(c, e); if (!ieq(coeff_q(c), k)) g.fail("get", what + ": constant read as " + coeff_q(c).str()); ap_coeff_free(c);
  { Map s; size_t i; ap_dim_t d; ap_coeff_t* p; long last = -1; ap_linexpr0_ForeachLinterm(e, i, d, p) { if ((long)d <= last) g.fail("iter", what + ": iteration not increasing"); last = d; Itv v = coeff_q(p); if (!izero(v)) s[d] = v; } if (!meq(s, m)) g.fail("iter", what + ": iteration gives " + ms(s, k)); }
  for (size_t id = 0; id <= 4; id++) { bool wi = true, wr = true; for (auto& x : m) { if (x.first >= id) wi = false; else wr = false; } if (ap_linexpr0_is_integer(e, id) != wi) g.fail("is_integer", what + ": ap_linexpr0_is_integer with " + std::to_string(id) + " integer dimensions"); if (ap_linexpr0_is_real(e, id) != wr) g.fail("is_real", what + ": ap_linexpr0_is_real with " + std::to_string(id) + " integer dimensions"); }
  // classification: certain only when no coefficient is a point given as an interval
  bool ci = false, ki = !k.scalar(), amb = k.scalar() && e->cst.discr == AP_COEFF_INTERVAL; for (auto& x : m) if (!x.second.scalar()) ci = true;
  { size_t i; ap_dim_t d; ap_coeff_t* p; ap_linexpr0_ForeachLinterm(e, i, d, p) if (p->discr == AP_COEFF_INTERVAL && coeff_q(p).scalar()) amb = true; }
  if (!amb) { int w = ci ? AP_LINEXPR_INTLINEAR : ki ? AP_LINEXPR_QUASILINEAR : AP_LINEXPR_LINEAR; if (ap_linexpr0_type(e) != w) g.fail("type", what + ": ap_linexpr0_type gives " + std::to_string(ap_linexpr0_type(e))); if (ap_linexpr0_is_linear(e) != (w == AP_LINEXPR_LINEAR)) g.fail("type", what + ": ap_linexpr0_is_linear"); if (ap_linexpr0_is_quasilinear(e) != !ci) g.fail("type", what + ": ap_linexpr0_is_quasilinear"); }
}
// ---- alphabets ----
static vector<Itv> alpha(int T) { vector<Itv> r = {Itv(Q(0)), Itv(Q(1)), Itv(Q(-2)), Itv(mkq(1, 2)), I(-1, 2)}; if (T) { r.push_back(Itv(EQ(mkq(1, 3)), pinf())); r.push_back(Itv(Q(3))); } return r; }
static vector<vector<Itv>> vectors(const vector<Itv>& a, size_t n) { vector<vector<Itv>> r = {{}}; for (size_t i = 0; i < n; i++) { vector<vector<Itv>> s; for (auto& v : r) for (auto& x : a) { auto w = v; w.push_back(x); s.push_back(w); } r = s; } return r; }
static string vs(const vector<Itv>& c, const Itv& k) { string s = "("; for (auto& x : c) s += x.str() + " "; return s + "| " + k.str() + ")"; }
static vector<vector<size_t>> changes(size_t n, size_t most) { vector<vector<size_t>> r = {{}}, cur = {{}}; for (size_t k = 0; k < most; k++) { vector<vector<size_t>> nx; for (auto& v : cur) for (size_t p = v.empty() ? 0 : v.back(); p <= n; p++) { auto w = v; w.push_back(p); nx.push_back(w); } cur = nx; r.insert(r.end(), nx.begin(), nx.end()); } return r; }
static vector<vector<size_t>> subsets(size_t n) { vector<vector<size_t>> r; for (size_t m = 0; m < (1u << n); m++) { vector<size_t> v; for (size_t i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); r.push_back(v); } return r; }
static string szs(const vector<size_t>& v) { string s = "["; for (auto x : v) s += std::to_string(x) + " "; return s + "]"; }
static ap_dimchange_t* mkch(const vector<size_t>& v, size_t ints) { ap_dimchange_t* d = ap_dimchange_alloc(ints, v.size() - ints); for (size_t i = 0; i < v.size(); i++) d->dim[i] = v[i]; return d; }
static size_t shift(size_t d, const vector<size_t>& v) { size_t k = 0; for (auto p : v) if (p <= d) k++; return d + k; }
static vector<vector<size_t>> perms(size_t n) { vector<size_t> p; for (size_t i = 0; i < n; i++) p.push_back(i); vector<vector<size_t>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static ap_dimperm_t* mkperm(const vector<size_t>& p) { ap_dimperm_t* d = ap_dimperm_alloc(p.size()); for (size_t i = 0; i < p.size(); i++) d->dim[i] = p[i]; return d; }
// reference comparison
static int icmp(const Itv& a, const Itv& b) { bool s = a.scalar(), t = b.scalar(); if (s && t) return ecmp(a.lo, b.lo); if (s != t) return s ? -3 : 3; int l = ecmp(a.lo, b.lo), h = ecmp(a.hi, b.hi); return !l && !h ? 0 : l >= 0 && h <= 0 ? -1 : l <= 0 && h >= 0 ? 1 : l > 0 ? 2 : -2; }
static int vcmp(const vector<Itv>& a, const Itv& k, const vector<Itv>& b, const Itv& l) { for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { int c = icmp(i < a.size() ? a[i] : I0(), i < b.size() ? b[i] : I0()); if (c) return c; } return icmp(k, l); }
// ---- edit sequences ----
struct Op { string name; std::function<void(G&, ap_linexpr0_t*&, Map&, Itv&, long&, const string&)> f; };
static vector<Op> edits(int T) {
  vector<Op> r;
  auto setters = [&](size_t d) {
    auto add = [&](const string& n, const Itv& v, std::function<bool(ap_linexpr0_t*)> s) { r.push_back({n + "(x" + std::to_string(d) + "," + v.str() + ")", [=](G& g, ap_linexpr0_t*& e, Map& m, Itv& k, long& ds, const string& w) { bool none = ds >= 0 && (long)d >= ds; bool b = s(e); if (b != none) g.fail("set", w + ": the setter returns " + std::to_string(b)); if (!none) { if (izero(v)) m.erase(d); else m[d] = v; } }}); };
    add("set_coeff", I(-1, 2), [=](ap_linexpr0_t* e) { ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_int(c, -1, 2); bool b = ap_linexpr0_set_coeff(e, d, c); ap_coeff_free(c); return b; });
    add("set_coeff_scalar", Itv(mkq(1, 2)), [=](ap_linexpr0_t* e) { ap_scalar_t* c = ap_scalar_alloc(); ap_scalar_set_frac(c, 1, 2); bool b = ap_linexpr0_set_coeff_scalar(e, d, c); ap_scalar_free(c); return b; });
    add("set_coeff_scalar_int", Itv(Q(0)), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_scalar_int(e, d, 0); });
    add("set_coeff_scalar_frac", Itv(mkq(-2, 3)), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_scalar_frac(e, d, -4, 6); });
    add("coeffref", Itv(Q(5)), [=](ap_linexpr0_t* e) { ap_coeff_t* c = ap_linexpr0_coeffref(e, d); if (!c) return true; ap_coeff_set_scalar_int(c, 5); return false; });
    if (d == 1 || T) {
      add("set_coeff_scalar_double", Itv(mkq(-3, 4)), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_scalar_double(e, d, -0.75); });
      add("set_coeff_interval", Itv(Q(3)), [=](ap_linexpr0_t* e) { ap_interval_t* c = ap_interval_alloc(); ap_interval_set_int(c, 3, 3); ap_coeff_t* q = ap_linexpr0_coeffref(e, d); if (q) ap_coeff_set_interval(q, c); ap_interval_free(c); return q == NULL; });
      add("set_coeff_interval_scalar", Itv(Q(1), pinf()), [=](ap_linexpr0_t* e) { ap_scalar_t *c = ap_scalar_alloc(), *f = ap_scalar_alloc(); ap_scalar_set_int(c, 1); ap_scalar_set_infty(f, 1); bool b = ap_linexpr0_set_coeff_interval_scalar(e, d, c, f); ap_scalar_free(c); ap_scalar_free(f); return b; });
      add("set_coeff_interval_int", I(-7, 7), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_interval_int(e, d, -7, 7); });
      add("set_coeff_interval_frac", Itv(EQ(mkq(1, 3)), EQ(mkq(5, 2))), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_interval_frac(e, d, 2, 6, 5, 2); });
      add("set_coeff_interval_double", Itv(EQ(mkq(1, 4)), EQ(mkq(1, 2))), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_coeff_interval_double(e, d, 0.25, 0.5); });
      add("set_list", Itv(mkq(2, 5)), [=](ap_linexpr0_t* e) { return ap_linexpr0_set_list(e, AP_COEFF_S_FRAC, 2, 5, (ap_dim_t)d, AP_END); }); } };
  for (size_t d = 0; d < 4; d++) setters(d);
  auto cst = [&](const string& n, const Itv& v, std::function<void(ap_linexpr0_t*)> s) { r.push_back({n + "(" + v.str() + ")", [=](G&, ap_linexpr0_t*& e, Map&, Itv& k, long&, const string&) { s(e); k = v; }}); };
  cst("set_cst", I(-1, 2), [](ap_linexpr0_t* e) { ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); ap_coeff_set_interval_int(c, -1, 2); ap_linexpr0_set_cst(e, c); ap_coeff_free(c); });
  cst("set_cst_scalar_frac", Itv(mkq(-1, 3)), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_scalar_frac(e, -2, 6); });
  cst("set_cst_interval_frac", Itv(EQ(mkq(-1, 3)), EQ(mkq(1, 2))), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_interval_frac(e, -1, 3, 2, 4); });
  cst("set_list_cst", Itv(EQ(Q(-2)), EQ(mkq(1, 2))), [](ap_linexpr0_t* e) { ap_linexpr0_set_list(e, AP_CST_I_DOUBLE, -2.0, 0.5, AP_END); });
  if (T) { cst("set_cst_scalar_int", Itv(Q(9)), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_scalar_int(e, 9); }); cst("set_cst_scalar_double", Itv(mkq(1, 8)), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_scalar_double(e, 0.125); }); cst("set_cst_interval_int", I(2, 2), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_interval_int(e, 2, 2); }); cst("set_cst_interval_double", Itv(EQ(Q(0)), EQ(mkq(1, 2))), [](ap_linexpr0_t* e) { ap_linexpr0_set_cst_interval_double(e, 0, 0.5); }); }
  r.push_back({"minimize", [](G& g, ap_linexpr0_t*& e, Map& m, Itv&, long& ds, const string& w) { ap_linexpr0_minimize(e); if (ds < 0 && e->size != m.size()) g.fail("minimize", w + ": " + std::to_string(e->size) + " terms left"); }});
  for (size_t s = 0; s <= 4; s++) r.push_back({"realloc(" + std::to_string(s) + ")", [s](G& g, ap_linexpr0_t*& e, Map& m, Itv&, long& ds, const string& w) { if (ds >= 0) { ap_linexpr0_realloc(e, s); for (auto it = m.begin(); it != m.end();) if (it->first >= s) it = m.erase(it); else ++it; ds = s; } else { vector<size_t> keep; for (size_t i = 0; i < s && i < e->size; i++) keep.push_back(e->p.linterm[i].dim); ap_linexpr0_realloc(e, s); for (auto it = m.begin(); it != m.end();) if (std::find(keep.begin(), keep.end(), it->first) == keep.end()) it = m.erase(it); else ++it; if (e->size != s) g.fail("size", w + ": wrong size"); } }});
  r.push_back({"copy", [](G&, ap_linexpr0_t*& e, Map&, Itv&, long&, const string&) { ap_linexpr0_t* c = ap_linexpr0_copy(e); ap_linexpr0_free(e); e = c; }});
  r.push_back({"coeffref?(x2)", [](G& g, ap_linexpr0_t*& e, Map& m, Itv&, long& ds, const string& w) { ap_coeff_t* c = ap_linexpr0_coeffref(e, 2); if (!c != (ds >= 0 && ds <= 2)) g.fail("coeffref", w + ": null or not"); else if (c) { auto it = m.find(2); if (!ieq(coeff_q(c), it == m.end() ? I0() : it->second)) g.fail("coeffref", w + ": refers to " + coeff_q(c).str()); } }});
  r.push_back({"hash", [](G&, ap_linexpr0_t*& e, Map&, Itv&, long&, const string&) { ap_linexpr0_hash(e); }});
  for (auto& v : vector<vector<size_t>>{{0}, {1, 1}, {0, 2}}) r.push_back({"add_dimensions_with" + szs(v), [v](G&, ap_linexpr0_t*& e, Map& m, Itv&, long& ds, const string&) { for (auto p : v) if (ds >= 0 && (long)p > ds) return; ap_dimchange_t* d = mkch(v, 0); ap_linexpr0_add_dimensions_with(e, d); ap_dimchange_free(d); Map n; for (auto& x : m) n[shift(x.first, v)] = x.second; m = n; if (ds >= 0) ds += v.size(); }});
  r.push_back({"permute_with", [](G&, ap_linexpr0_t*& e, Map& m, Itv&, long& ds, const string&) { size_t n = ds >= 0 ? ds : 12; for (auto& x : m) if (x.first >= n) return; if (ds < 0) for (size_t i = 0; i < e->size; i++) if (e->p.linterm[i].dim != AP_DIM_MAX && e->p.linterm[i].dim >= n) return; vector<size_t> p; for (size_t i = 0; i < n; i++) p.push_back(n - 1 - i); ap_dimperm_t* d = mkperm(p); ap_linexpr0_permute_dimensions_with(e, d); ap_dimperm_free(d); Map q; for (auto& x : m) q[p[x.first]] = x.second; m = q; }});
  return r; }
int main(int argc, char** argv) {
  Runner R(argc, argv); R.dom = "expr"; int T = R.tier; auto A = alpha(T);
  // A. all edit sequences of a fixed length
  static vector<Op> E = edits(T); int depth = T ? 4 : 3;
  if (T) { static vector<Op> E4 = edits(0); (void)E4; }
  for (int start = 0; start < 8; start++) for (size_t first = 0; first < E.size(); first++) R.group("edit " + string(start < 4 ? "dense" : "sparse") + std::to_string(start % 4) + " " + E[first].name, [=](G& g) {
    vector<size_t> seq = {first}; int dmax = depth; if (dmax == 4 && start % 4 != 2) dmax = 3;
    std::function<void()> rec = [&] {
      if (g.next([&] { string s; for (auto o : seq) s += E[o].name + "; "; return s; })) {
        ap_linexpr0_t* e = ap_linexpr0_alloc(start < 4 ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, start % 4); Map m; Itv k = I0(); long ds = start < 4 ? start : -1;
        for (size_t j = 0; j < seq.size(); j++) { E[seq[j]].f(g, e, m, k, ds, E[seq[j]].name); if (j + 1 == seq.size()) check(g, e, m, k, ds, E[seq[j]].name); }
        Map mm; Itv kk; read(e, mm, kk); g.ok(std::hash<string>()(ms(mm, kk) + std::to_string(ds)));
        ap_linexpr0_free(e); }
      if ((int)seq.size() < dmax) for (size_t o = 0; o < E.size(); o++) { seq.push_back(o); rec(); seq.pop_back(); } };
    rec(); });
  // B. pairs: equality, hash, order
  struct EV { vector<Itv> c; Itv k; int form, rep; bool single; string name; };
  static vector<EV> V; auto C3 = vectors(A, 2); { auto K = A; for (auto& c : C3) for (auto& k : K) { if (!T && k.lo.inf == 0 && ieq(k, Itv(mkq(1, 2)))) continue; for (int f = 0; f < F_NUM; f++) V.push_back({c, k, f, R_MPQ, false, string(FN[f]) + vs(c, k)}); V.push_back({c, k, F_SPARSE, R_DBL, true, "sparse,double,interval" + vs(c, k)}); V.push_back({c, k, F_DENSE, R_MPFR, true, "dense,mpfr,interval" + vs(c, k)}); { auto d = c; d.push_back(I0()); V.push_back({d, k, F_DENSE, R_DBL, false, "dense,longer" + vs(c, k)}); } if (izero(c[1])) { auto d = c; d.pop_back(); V.push_back({d, k, F_DENSE, R_MPQ, false, "dense,shorter" + vs(d, k)}); } } }
  static vector<ap_linexpr0_t*> L; 
  for (int part = 0; part < 32; part++) R.group("pair " + std::to_string(part), [=](G& g) { if (L.empty()) for (auto& v : V) L.push_back(build(v.c, v.k, v.form, v.rep, v.single));
    for (size_t i = part; i < V.size(); i += 32) for (size_t j = 0; j < V.size(); j++) { if (!g.next([&] { return V[i].name + " , " + V[j].name; })) continue; int w = vcmp(V[i].c, V[i].k, V[j].c, V[j].k);
      ap_linexpr0_t *a = build(V[i].c, V[i].k, V[i].form, V[i].rep, V[i].single), *b = L[j];
      int c = ap_linexpr0_compare(a, b); bool both = abs(w) <= 1; if (both ? sg(c) != w : c != w) g.fail("compare", "ap_linexpr0_compare gives " + std::to_string(c) + " expected " + std::to_string(w));
      ap_linexpr0_free(a); a = build(V[i].c, V[i].k, V[i].form, V[i].rep, V[i].single);
      bool q = ap_linexpr0_equal(a, b); if (q != (w == 0)) g.fail("equal", "ap_linexpr0_equal gives " + std::to_string(q));
      if (w == 0) { ap_linexpr0_free(a); a = build(V[i].c, V[i].k, V[i].form, V[i].rep, V[i].single); ap_linexpr0_t* b2 = build(V[j].c, V[j].k, V[j].form, V[j].rep, V[j].single); long h = ap_linexpr0_hash(a), h2 = ap_linexpr0_hash(b2); if (h != h2) g.fail("hash", "equal expressions hash to " + std::to_string(h) + " and " + std::to_string(h2)); ap_linexpr0_free(b2); }
      Map m; Itv k; string err = read(a, m, k); if (!err.empty() || !meq(m, mapof(V[i].c)) || !ieq(k, V[i].k)) g.fail("args", "argument changed " + err); ap_linexpr0_free(a);
      g.ok(c * 2 + q); } });
  R.group("pair wide", [=](G& g) { for (size_t n : {1u, 9u, 10u, 11u, 12u, 15u, 16u, 17u, 25u}) for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++) for (int gap = 0; gap < 2; gap++) { if (!g.next([&] { return std::to_string(n) + " terms, edit " + std::to_string(a) + " " + std::to_string(b) + " gap " + std::to_string(gap); })) continue;
      vector<Itv> c(n); for (size_t i = 0; i < n; i++) c[i] = Itv(Q((long)i + 1)); ap_linexpr0_t *d = build(c, Itv(Q(1)), F_DENSE), *s = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, gap ? n + 3 : 0); // sparse: fill in an order that exercises the search
      for (size_t i = 0; i < n; i++) { size_t j = (i * 7 + a) % n; if (std::__gcd((size_t)7, n) != 1) j = (a + i) % n; ap_linexpr0_set_coeff_scalar_int(s, j, j + 1); } ap_linexpr0_set_cst_scalar_int(s, 1);
      check(g, s, mapof(c), Itv(Q(1)), -1, "filling"); if (!ap_linexpr0_equal(d, s) || ap_linexpr0_compare(d, s)) g.fail("equal", "dense and sparse differ"); if (ap_linexpr0_hash(d) != ap_linexpr0_hash(s)) g.fail("hash", "dense and sparse hash differently");
      c[a] = I0(); c[b] = Itv(Q(-4)); ap_linexpr0_set_coeff_scalar_int(s, a, 0); ap_linexpr0_set_coeff_scalar_int(s, b, -4); check(g, s, mapof(c), Itv(Q(1)), -1, "edit"); ap_linexpr0_minimize(s); check(g, s, mapof(c), Itv(Q(1)), -1, "minimize"); int w = vcmp(c, I0(), [&] { vector<Itv> o(n); for (size_t i = 0; i < n; i++) o[i] = Itv(Q((long)i + 1)); return o; }(), I0()); if (sg(ap_linexpr0_compare(s, d)) != sg(w) || sg(ap_linexpr0_compare(d, s)) != -sg(w)) g.fail("compare", "wide order");
      ap_linexpr0_free(d); ap_linexpr0_free(s); g.ok(w); } });
  R.group("wide dims", [=](G& g) { for (size_t n : {4u, 5u, 8u, 11u, 17u}) for (int form = 0; form < F_NUM; form++) for (size_t hole = 0; hole <= n; hole++) for (size_t a = 0; a < 2 * n; a++) { if (!g.next([&] { return std::to_string(n) + " " + FN[form] + " hole " + std::to_string(hole) + " change " + std::to_string(a); })) continue;
      vector<Itv> c(n); for (size_t i = 0; i < n; i++) c[i] = i == hole ? I0() : Itv(Q((long)i + 1)); Itv k(Q(-9)); ap_linexpr0_t* e = build(c, k, form); vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = a < n ? (i + a) % n : (a + n - i) % n; ap_dimperm_t* d = mkperm(p); Map w; for (size_t i = 0; i < n; i++) if (i != hole) w[p[i]] = c[i];
      ap_linexpr0_t* r = ap_linexpr0_permute_dimensions(e, d); check(g, r, w, k, form == F_DENSE ? (long)n : -1, "permute"); check(g, e, mapof(c), k, form == F_DENSE ? (long)n : -1, "permute (argument)"); ap_linexpr0_permute_dimensions_with(r, d); Map w2; for (auto& x : w) w2[p[x.first]] = x.second; check(g, r, w2, k, form == F_DENSE ? (long)n : -1, "permute_with"); ap_linexpr0_free(r); ap_dimperm_free(d);
      vector<size_t> ch = {hole, std::max(hole, std::min(a, n)), n}; ap_dimchange_t* dc = mkch(ch, 1); r = ap_linexpr0_add_dimensions(e, dc); Map w3; for (auto& x : mapof(c)) w3[shift(x.first, ch)] = x.second; check(g, r, w3, k, form == F_DENSE ? (long)n + 3 : -1, "add_dimensions"); ap_linexpr0_free(r); ap_dimchange_free(dc); ap_linexpr0_free(e); g.ok(a); } });
  // C. dimension changes of expressions, constraints, generators and arrays
  for (size_t n = 0; n <= 3; n++) for (int form = 0; form < F_NUM; form++) R.group("dims " + std::to_string(n) + " " + FN[form], [=](G& g) {
    vector<Itv> al = {I0(), Itv(Q(1)), I(-1, 2)}; if (T) al.push_back(Itv(mkq(-1, 3)));
    for (auto& c : vectors(al, n)) {
      Map m = mapof(c); Itv k(Q(7));
      auto all = [&](const string& nm, const Map& w, long ds, std::function<ap_linexpr0_t*(ap_linexpr0_t*)> f, std::function<void(ap_linexpr0_t*)> fw, std::function<ap_lincons0_t(ap_lincons0_t*)> lc, std::function<void(ap_lincons0_t*)> lcw, std::function<ap_lincons0_array_t(ap_lincons0_array_t*)> la, std::function<void(ap_lincons0_array_t*)> law, std::function<ap_generator0_t(ap_generator0_t*)> gc, std::function<void(ap_generator0_t*)> gcw, std::function<ap_generator0_array_t(ap_generator0_array_t*)> ga, std::function<void(ap_generator0_array_t*)> gaw) {
        if (form != F_DENSE) ds = -1; auto same = [&](ap_linexpr0_t* e, const string& x) { check(g, e, m, k, form == F_DENSE ? (long)n : -1, x + " (argument)"); };
        ap_linexpr0_t* e = build(c, k, form); ap_linexpr0_t* r = f(e); check(g, r, w, k, ds, nm); same(e, nm); ap_linexpr0_free(r); fw(e); check(g, e, w, k, ds, nm + "_with"); ap_linexpr0_free(e);
        for (int t = 0; t < 5; t++) { ap_scalar_t* md = NULL; if (t == AP_CONS_EQMOD) { md = ap_scalar_alloc(); ap_scalar_set_int(md, 3); } ap_lincons0_t x = ap_lincons0_make((ap_constyp_t)t, build(c, k, form), md);
          auto ok = [&](ap_lincons0_t* y, const string& z) { check(g, y->linexpr0, w, k, ds, z); if (y->constyp != t || !y->scalar != (t != AP_CONS_EQMOD) || (y->scalar && ap_scalar_cmp_int(y->scalar, 3))) g.fail("cons", z + ": type or modulus changed"); };
          ap_lincons0_t y = lc(&x); ok(&y, "lincons " + nm); same(x.linexpr0, "lincons " + nm); if (y.scalar && y.scalar == x.scalar) g.fail("cons", "shared modulus"); ap_lincons0_clear(&y); if (y.linexpr0 || y.scalar) g.fail("cons", "not cleared"); y = ap_lincons0_copy(&x); lcw(&x); ok(&x, "lincons " + nm + "_with"); same(y.linexpr0, "lincons copy");
          ap_lincons0_array_t ar = ap_lincons0_array_make(2); ar.p[0] = y; ar.p[1] = ap_lincons0_copy(&y); ap_lincons0_array_t br = la(&ar); if (br.size != 2) g.fail("cons", "array size"); else { ok(&br.p[0], "array " + nm); ok(&br.p[1], "array " + nm); } same(ar.p[1].linexpr0, "array " + nm); ap_lincons0_array_clear(&br); law(&ar); ok(&ar.p[0], "array " + nm + "_with"); ok(&ar.p[1], "array " + nm + "_with"); ap_lincons0_array_clear(&ar); ap_lincons0_clear(&x); }
        for (int t = 0; t < 5; t++) { ap_generator0_t x = ap_generator0_make((ap_gentyp_t)t, build(c, k, form)); auto ok = [&](ap_generator0_t* y, const string& z) { check(g, y->linexpr0, w, k, ds, z); if (y->gentyp != t) g.fail("gen", z + ": type changed"); };
          ap_generator0_t y = gc(&x); ok(&y, "generator " + nm); same(x.linexpr0, "generator " + nm); ap_generator0_clear(&y); y = ap_generator0_copy(&x); gcw(&x); ok(&x, "generator " + nm + "_with"); same(y.linexpr0, "generator copy");
          ap_generator0_array_t ar = ap_generator0_array_make(2); ar.p[0] = y; ar.p[1] = ap_generator0_copy(&y); ap_generator0_array_t br = ga(&ar); if (br.size != 2) g.fail("gen", "array size"); else { ok(&br.p[0], "generator array " + nm); ok(&br.p[1], "generator array " + nm); } ap_generator0_array_clear(&br); gaw(&ar); ok(&ar.p[0], "generator array " + nm + "_with"); ok(&ar.p[1], "generator array " + nm + "_with"); ap_generator0_array_clear(&ar); ap_generator0_clear(&x); } };
      for (auto& ch : changes(n, n > 2 ? 2 : 3)) for (size_t ints = 0; ints <= ch.size(); ints++) { if (!g.next([&] { return vs(c, k) + " add " + szs(ch) + " " + std::to_string(ints); })) continue; Map w; for (auto& x : m) w[shift(x.first, ch)] = x.second; ap_dimchange_t* d = mkch(ch, ints);
        all("add_dimensions", w, n + ch.size(), [&](ap_linexpr0_t* e) { return ap_linexpr0_add_dimensions(e, d); }, [&](ap_linexpr0_t* e) { ap_linexpr0_add_dimensions_with(e, d); }, [&](ap_lincons0_t* e) { return ap_lincons0_add_dimensions(e, d); }, [&](ap_lincons0_t* e) { ap_lincons0_add_dimensions_with(e, d); }, [&](ap_lincons0_array_t* e) { return ap_lincons0_array_add_dimensions(e, d); }, [&](ap_lincons0_array_t* e) { ap_lincons0_array_add_dimensions_with(e, d); }, [&](ap_generator0_t* e) { return ap_generator0_add_dimensions(e, d); }, [&](ap_generator0_t* e) { ap_generator0_add_dimensions_with(e, d); }, [&](ap_generator0_array_t* e) { return ap_generator0_array_add_dimensions(e, d); }, [&](ap_generator0_array_t* e) { ap_generator0_array_add_dimensions_with(e, d); });
        ap_dimchange_free(d); g.ok(std::hash<string>()(ms(w, k))); }
      for (auto& p : perms(n)) { if (!g.next([&] { return vs(c, k) + " permute " + szs(p); })) continue; Map w; for (auto& x : m) w[p[x.first]] = x.second; ap_dimperm_t* d = mkperm(p);
        all("permute_dimensions", w, n, [&](ap_linexpr0_t* e) { return ap_linexpr0_permute_dimensions(e, d); }, [&](ap_linexpr0_t* e) { ap_linexpr0_permute_dimensions_with(e, d); }, [&](ap_lincons0_t* e) { return ap_lincons0_permute_dimensions(e, d); }, [&](ap_lincons0_t* e) { ap_lincons0_permute_dimensions_with(e, d); }, [&](ap_lincons0_array_t* e) { return ap_lincons0_array_permute_dimensions(e, d); }, [&](ap_lincons0_array_t* e) { ap_lincons0_array_permute_dimensions_with(e, d); }, [&](ap_generator0_t* e) { return ap_generator0_permute_dimensions(e, d); }, [&](ap_generator0_t* e) { ap_generator0_permute_dimensions_with(e, d); }, [&](ap_generator0_array_t* e) { return ap_generator0_array_permute_dimensions(e, d); }, [&](ap_generator0_array_t* e) { ap_generator0_array_permute_dimensions_with(e, d); });
        ap_dimperm_free(d); g.ok(std::hash<string>()(ms(w, k))); } } });
  // D. constraints: trivial truth, arrays, printing
  R.group("cons", [=](G& g) { vector<Itv> ks = {I0(), Itv(Q(1)), Itv(Q(-2)), Itv(Q(3)), Itv(Q(6)), Itv(mkq(-1, 2)), Itv(mkq(3, 2)), I(-1, 2), I(0, 3), I(-3, 0), I(1, 2), I(-2, -1), I(4, 5), I(3, 3), I(0, 0), I(2, 7), Itv(minf(), EQ(Q(0))), Itv(minf(), EQ(Q(-1))), Itv(EQ(Q(1)), pinf()), Itv(EQ(Q(0)), pinf()), Itv(minf(), pinf())};
    for (auto& k : ks) for (int single = 0; single < 2; single++) for (int form = 0; form < F_NUM; form++) for (int v = 0; v < 3; v++) for (int t = 0; t < 5; t++) for (int md = 0; md < (t == AP_CONS_EQMOD ? 4 : 1); md++) { vector<Itv> c = {I0(), I0()}; if (v == 1) c[1] = Itv(Q(1)); if (v == 2) c[0] = I(0, 1); static const Q MD[] = {Q(0), Q(3), Q(2), mkq(3, 2)};
      if (!g.next([&] { return vs(c, k) + (single ? "i" : "s") + FN[form] + CT[t] + qs(MD[md]); })) continue; ap_scalar_t* s = NULL; if (t == AP_CONS_EQMOD) { s = ap_scalar_alloc(); set_scalar(s, EQ(MD[md]), R_MPQ); } ap_lincons0_t x = ap_lincons0_make((ap_constyp_t)t, build(c, k, form, R_MPQ, single), s);
      bool un = ap_lincons0_is_unsat(&x), sa = ap_lincons0_is_sat(&x);
      // what the interval allows: some value / all values satisfy
      bool some, all; bool z = k.has(Q(0)), pt = k.scalar(); EQ zero{Q(0)}; switch (t) { case AP_CONS_EQ: some = z; all = pt && z; break; case AP_CONS_SUPEQ: some = ecmp(k.hi, zero) >= 0; all = ecmp(k.lo, zero) >= 0; break; case AP_CONS_SUP: some = ecmp(k.hi, zero) > 0; all = ecmp(k.lo, zero) > 0; break; case AP_CONS_DISEQ: some = !(pt && z); all = !z; break;
        default: if (MD[md] == 0) { some = z; all = pt && z; } else if (pt) { Q q = k.lo.v / MD[md]; some = all = q.get_den() == 1; } else { all = false; if (k.lo.inf || k.hi.inf) some = true; else { Q a = k.lo.v / MD[md]; some = Q(zceil(a)) * MD[md] <= k.hi.v; } } }
      if (v) some = true, all = false; if (un && some) g.fail("unsat", "ap_lincons0_is_unsat answers true"); if (sa && !all) g.fail("sat", "ap_lincons0_is_sat answers true");
      if (!v && t != AP_CONS_EQMOD) { if (!un && !some) g.fail("unsat", "ap_lincons0_is_unsat answers false"); if (!sa && all) g.fail("sat", "ap_lincons0_is_sat answers false"); }
      g.ok(un * 2 + sa);
      ap_lincons0_clear(&x); }
    if (g.next([] { return string("unsat"); })) { ap_lincons0_t x = ap_lincons0_make_unsat(); if (!ap_lincons0_is_unsat(&x) || ap_lincons0_is_sat(&x)) g.fail("unsat", "ap_lincons0_make_unsat"); ap_lincons0_clear(&x); ap_tcons0_t y = ap_tcons0_make_unsat(); if (y.constyp != AP_CONS_SUPEQ || y.texpr0->discr != AP_TEXPR_CST || coeff_q(&y.texpr0->val.cst).lo.v != -1) g.fail("unsat", "ap_tcons0_make_unsat"); ap_tcons0_clear(&y); g.ok(1); } });
  R.group("arrays", [=](G& g) { // kinds: 0 linear, 1 quasilinear, 2 interval linear
    auto mk = [](int kind, int form) { vector<Itv> c = {Itv(Q(1)), Itv(Q(-2))}; Itv k(Q(3)); if (kind == 1) k = I(1, 2); if (kind == 2) c[1] = I(0, 1); return build(c, k, form); };
    for (size_t n = 0; n <= 4; n++) { size_t N = 1; for (size_t i = 0; i < n; i++) N *= 3; for (size_t code = 0; code < N; code++) for (size_t to = 0; to <= 5; to++) { if (!g.next([&] { return "kinds " + std::to_string(code) + " of " + std::to_string(n) + " resized to " + std::to_string(to); })) continue;
        ap_lincons0_array_t a = ap_lincons0_array_make(n); ap_linexpr0_t** L = (ap_linexpr0_t**)malloc((n + 1) * sizeof(void*)); ap_generator0_array_t gg = ap_generator0_array_make(n); ap_tcons0_array_t tt = ap_tcons0_array_make(n); int worst = 2; vector<int> kd; size_t x = code;
        for (size_t i = 0; i < n; i++) { if (a.p[i].linexpr0 || a.p[i].scalar || gg.p[i].linexpr0 || tt.p[i].texpr0 || tt.p[i].scalar) g.fail("array", "not initialised with NULL"); int k = x % 3; x /= 3; kd.push_back(k); worst = std::min(worst, k == 0 ? (int)AP_LINEXPR_LINEAR : k == 1 ? (int)AP_LINEXPR_QUASILINEAR : (int)AP_LINEXPR_INTLINEAR); a.p[i] = ap_lincons0_make(AP_CONS_SUPEQ, mk(k, i % 2), NULL); L[i] = mk(k, (i + 1) % 2); gg.p[i] = ap_generator0_make(AP_GEN_RAY, mk(0, i % 2)); tt.p[i] = ap_tcons0_make(AP_CONS_SUP, k == 2 ? ap_texpr0_binop(AP_TEXPR_MUL, ap_texpr0_dim(0), ap_texpr0_dim(1), AP_RTYPE_REAL, AP_RDIR_RND) : ap_texpr0_dim(k), NULL); }
        if (ap_lincons0_array_type(&a) != worst) g.fail("array_type", "ap_lincons0_array_type gives " + std::to_string(ap_lincons0_array_type(&a)) + " expected " + std::to_string(worst)); if (ap_lincons0_array_is_linear(&a) != (worst == AP_LINEXPR_LINEAR)) g.fail("array_type", "ap_lincons0_array_is_linear"); if (ap_lincons0_array_is_quasilinear(&a) != (worst != AP_LINEXPR_INTLINEAR)) g.fail("array_type", "ap_lincons0_array_is_quasilinear");
        if (ap_linexpr0_array_type(L, n) != worst) g.fail("array_type", "ap_linexpr0_array_type gives " + std::to_string(ap_linexpr0_array_type(L, n))); if (ap_linexpr0_array_is_linear(L, n) != (worst == AP_LINEXPR_LINEAR)) g.fail("array_type", "ap_linexpr0_array_is_linear"); if (ap_linexpr0_array_is_quasilinear(L, n) != (worst != AP_LINEXPR_INTLINEAR)) g.fail("array_type", "ap_linexpr0_array_is_quasilinear");
        bool il = true; for (int k : kd) if (k == 2) il = false; if (ap_tcons0_array_is_interval_linear(&tt) != il) g.fail("array_type", "ap_tcons0_array_is_interval_linear");
        ap_lincons0_array_resize(&a, to); ap_generator0_array_resize(&gg, to); ap_tcons0_array_resize(&tt, to); if (a.size != to || gg.size != to || tt.size != to) g.fail("array", "resize gives another size");
        for (size_t i = 0; i < to; i++) { if (i >= n) { if (a.p[i].linexpr0 || a.p[i].scalar || gg.p[i].linexpr0 || tt.p[i].texpr0 || tt.p[i].scalar) g.fail("array", "new elements not NULL"); } else { int w = kd[i] == 0 ? AP_LINEXPR_LINEAR : kd[i] == 1 ? AP_LINEXPR_QUASILINEAR : AP_LINEXPR_INTLINEAR; if (ap_linexpr0_type(a.p[i].linexpr0) != w || ap_linexpr0_type(gg.p[i].linexpr0) != AP_LINEXPR_LINEAR || (tt.p[i].texpr0->discr == AP_TEXPR_NODE) != (kd[i] == 2)) g.fail("array", "elements changed by resize"); } }
        ap_lincons0_array_clear(&a); ap_generator0_array_clear(&gg); ap_tcons0_array_clear(&tt); if (a.p || gg.p || tt.p) g.fail("array", "not cleared"); ap_linexpr0_array_free(L, n); g.ok(code); } } });
  // printing linear expressions: read back
  R.group("print", [=](G& g) { char n0[] = "alpha", n1[] = "b"; char* nm[] = {n0, n1, NULL};
    auto num = [](const string& s, size_t& p, Itv& v) -> bool { auto one = [&](EQ& e) { size_t q = p; bool neg = false; if (s[q] == '-') { neg = true; q++; } else if (s[q] == '+') q++; if (s.compare(q, 2, "oo") == 0) { e = neg ? minf() : pinf(); p = q + 2; return true; } size_t b = q; while (q < s.size() && (isdigit(s[q]) || s[q] == '/' || s[q] == '.')) q++; if (q == b) return false; string t = s.substr(b, q - b); size_t d = t.find('.'); Q x; if (d != string::npos) { size_t dec = t.size() - d - 1; t.erase(d, 1); x = Q(mpz_class(t)); for (size_t i = 0; i < dec; i++) x /= 10; } else x = Q(t); x.canonicalize(); e = EQ(neg ? Q(-x) : x); p = q; return true; };
      if (s[p] == '[') { p++; EQ a, b; if (!one(a) || s[p] != ',') return false; p++; if (!one(b) || s[p] != ']') return false; p++; v = Itv(a, b); return true; } EQ a; if (!one(a)) return false; v = Itv(a, a); return true; };
    auto parse = [&](string s, bool names, Map& m, Itv& k) -> bool { m.clear(); k = I0(); size_t p = 0; bool first = true; while (p < s.size()) { bool neg = false; if (!first) { if (s.compare(p, 3, " + ") == 0) p += 3; else if (s.compare(p, 3, " - ") == 0) { neg = true; p += 3; } else return false; } else if (s[p] == '-') { neg = true; p++; } first = false; Itv v(Q(1)); bool have = num(s, p, v); long dim = -1; if (names) { if (s.compare(p, 5, "alpha") == 0) { dim = 0; p += 5; } else if (s[p] == 'b') { dim = 1; p++; } } else if (s[p] == 'x') { p++; dim = 0; while (p < s.size() && isdigit(s[p])) dim = dim * 10 + (s[p++] - '0'); } if (!have && dim < 0) return false; if (neg) { std::swap(v.lo, v.hi); v.lo.inf = -v.lo.inf; v.lo.v = -v.lo.v; v.hi.inf = -v.hi.inf; v.hi.v = -v.hi.v; } if (dim >= 0) { if (m.count(dim)) return false; m[dim] = v; } else k = v; } return !first; };
    auto A2 = alpha(1); A2.push_back(Itv(Q(-1))); for (auto& c : vectors(A2, 2)) for (auto& k : A2) for (int f = 0; f < F_NUM; f++) for (int rep : {R_MPQ, R_DBL, R_MPFR}) { if (!g.next([&] { return string(FN[f]) + vs(c, k) + std::to_string(rep); })) continue; ap_linexpr0_t* e = build(c, k, f, rep);
      bool exact = rep == R_MPQ; for (int names = 0; names < 2; names++) { string s = prints([&](FILE* o) { ap_linexpr0_fprint(o, e, names ? nm : NULL); }); Map m; Itv q; if (!parse(s, names, m, q)) { g.fail("print", "cannot be read back: " + s); continue; } if (!meq(m, mapof(c)) || !ieq(q, k)) g.fail("print", "reads back as " + ms(m, q) + ": " + s); (void)exact;
        for (int t = 0; t < 5; t++) { ap_scalar_t* md = NULL; if (t == AP_CONS_EQMOD) { md = ap_scalar_alloc(); ap_scalar_set_int(md, 3); } ap_lincons0_t x = ap_lincons0_make((ap_constyp_t)t, e, md); string u = prints([&](FILE* o) { ap_lincons0_fprint(o, &x, names ? nm : NULL); }); static const char* TAIL[] = {" = 0", " >= 0", " > 0", " = 0 mod 3", " != 0"}; if (u != s + TAIL[t]) g.fail("print", "constraint printed as " + u); if (md) ap_scalar_free(md); } }
      ap_linexpr0_free(e); g.ok(1); } });
  // E. tree expressions
  struct Ent { TEP t; };
  static vector<TEP> TS, T1, T2; { vector<TEP> lv = {td(0), td(1), td(2), tc(2), tc(-1, 2), tc(I(-1, 2)), tc(Itv(minf(), pinf()))}; TS = lv; vector<TEP> d1; for (int op = 0; op <= AP_TEXPR_SQRT; op++) for (int rt : {0, 1, 3}) for (int rd : {0, 4}) { if (op >= AP_TEXPR_NEG) { for (auto& a : lv) d1.push_back(tu(op, a, rt, rd)); } else for (size_t i = 0; i < lv.size(); i++) for (size_t j = 0; j < lv.size(); j++) { if (!T && (i * 7 + j * 3 + op) % 3 && rt) continue; d1.push_back(tb(op, lv[i], lv[j], rt, rd)); } }
    T1 = d1; TS.insert(TS.end(), d1.begin(), d1.end());
    vector<TEP> base; for (int op = 0; op <= AP_TEXPR_SQRT; op++) { for (int rt : {0, 1}) { if (op >= AP_TEXPR_NEG) { base.push_back(tu(op, td(0), rt, 0)); base.push_back(tu(op, tc(3), rt, 0)); } else { base.push_back(tb(op, td(0), td(2), rt, 0)); base.push_back(tb(op, td(1), tc(3), rt, 0)); base.push_back(tb(op, tc(-3), tc(I(1, 2)), rt, 0)); } } }
    for (auto& b : lv) base.push_back(b); for (int op = 0; op <= AP_TEXPR_SQRT; op++) for (int rt : {0, 2}) for (auto& a : base) { if (op >= AP_TEXPR_NEG) T2.push_back(tu(op, a, rt, 4)); else for (auto& b : base) T2.push_back(tb(op, a, b, rt, 4)); } TS.insert(TS.end(), T2.begin(), T2.end()); }
  struct X { static TEP back(ap_texpr0_t* a) { if (!a) return nullptr; switch (a->discr) { case AP_TEXPR_CST: return tc(coeff_q(&a->val.cst)); case AP_TEXPR_DIM: return td(a->val.dim); default: { auto t = std::make_shared<TE>(); t->kind = 2; t->op = a->val.node->op; t->rt = a->val.node->type; t->rd = a->val.node->dir; t->a = back(a->val.node->exprA); t->b = back(a->val.node->exprB); return t; } } }
    static bool eq(const TEP& a, const TEP& b) { if (!a || !b) return !a && !b; if (a->kind != b->kind) return false; if (a->kind == 0) return ieq(a->c, b->c); if (a->kind == 1) return a->d == b->d; return a->op == b->op && a->rt == b->rt && a->rd == b->rd && eq(a->a, b->a) && eq(a->b, b->b); }
    static TEP map(const TEP& a, std::function<TEP(size_t)> f) { if (!a) return a; if (a->kind == 1) return f(a->d); if (a->kind == 0) return a; auto t = std::make_shared<TE>(*a); t->a = map(a->a, f); t->b = map(a->b, f); return t; }
    static size_t depth(const TEP& a) { return !a || a->kind != 2 ? 0 : 1 + std::max(depth(a->a), depth(a->b)); } static size_t size(const TEP& a) { return !a || a->kind != 2 ? 0 : 1 + size(a->a) + size(a->b); }
    static void dims(const TEP& a, std::set<size_t>& s) { if (!a) return; if (a->kind == 1) s.insert(a->d); if (a->kind == 2) { dims(a->a, s); dims(a->b, s); } }
    static bool cst(const TEP& a) { std::set<size_t> s; dims(a, s); return s.empty(); } static bool scal(const TEP& a) { return !a || (a->kind == 0 ? a->c.scalar() : a->kind == 1 || (scal(a->a) && scal(a->b))); }
    static bool exact(const TEP& a) { return a->op == AP_TEXPR_NEG || a->op == AP_TEXPR_MOD || a->rt == AP_RTYPE_REAL; }
    // lvl 0 linear, 1 polynomial, 2 fraction
    static bool cls(const TEP& a, int l) { if (a->kind != 2) return true; if (!exact(a)) return false; switch (a->op) { case AP_TEXPR_NEG: case AP_TEXPR_CAST: return cls(a->a, l); case AP_TEXPR_ADD: case AP_TEXPR_SUB: return cls(a->a, l) && cls(a->b, l); case AP_TEXPR_MUL: return l ? cls(a->a, l) && cls(a->b, l) : (cls(a->a, 0) && cst(a->b)) || (cls(a->b, 0) && cst(a->a)); case AP_TEXPR_DIV: return l == 2 ? cls(a->a, l) && cls(a->b, l) : cls(a->a, l) && cst(a->b); case AP_TEXPR_POW: return l && cls(a->a, l) && cst(a->b); default: return false; } } };
  int NP = 24; for (int part = 0; part < NP; part++) R.group("tree " + std::to_string(part), [=](G& g) { char n0[] = "u", n1[] = "v", n2[] = "w"; char* nm[] = {n0, n1, n2, NULL};
    for (size_t i = part; i < TS.size(); i += NP) { auto& t = TS[i]; if (!g.next([&] { return tes(t); })) continue; ap_texpr0_t* e = mk_texpr(t, i % 3); auto is = [&](ap_texpr0_t* x, const TEP& w, const string& n) { if (!X::eq(X::back(x), w)) g.fail("tree", n + " gives " + (x ? tes(X::back(x)) : "NULL") + " expected " + tes(w)); };
      is(e, t, "construction"); ap_texpr0_t* c = ap_texpr0_copy(e); is(c, t, "ap_texpr0_copy"); if (!ap_texpr0_equal(e, c) || ap_texpr0_hash(e) != ap_texpr0_hash(c)) g.fail("equal", "copy not equal or hashed differently"); ap_texpr0_free(c);
      { ap_texpr0_t* o = mk_texpr(t, (i + 1) % 3); if (!ap_texpr0_equal(e, o)) g.fail("equal", "other number representation not equal"); else if (ap_texpr0_hash(e) != ap_texpr0_hash(o)) g.fail("hash", "other number representation hashed differently"); ap_texpr0_free(o); }
      if (ap_texpr0_depth(e) != X::depth(t)) g.fail("depth", std::to_string(ap_texpr0_depth(e))); if (ap_texpr0_size(e) != X::size(t)) g.fail("size", std::to_string(ap_texpr0_size(e)));
      std::set<size_t> ds; X::dims(t, ds); if (ap_texpr0_max_dim(e) != (ds.empty() ? 0 : *ds.rbegin() + 1)) g.fail("max_dim", std::to_string(ap_texpr0_max_dim(e))); for (size_t d = 0; d < 4; d++) if (ap_texpr0_has_dim(e, d) != !!ds.count(d)) g.fail("has_dim", "x" + std::to_string(d));
      { ap_dim_t* l = ap_texpr0_dimlist(e); size_t k = 0; for (auto d : ds) if (l[k] != d) { g.fail("dimlist", "wrong list"); break; } else k++; if (l[k] != AP_DIM_MAX) g.fail("dimlist", "not terminated"); free(l); }
      ap_texpr0_t* arr[2] = {e, e}; if (ap_texpr0_is_interval_cst(e) != X::cst(t)) g.fail("class", "ap_texpr0_is_interval_cst"); if (ap_texpr0_is_scalar(e) != X::scal(t) || ap_texpr0_array_is_scalar(arr, 2) != X::scal(t)) g.fail("class", "ap_texpr0_is_scalar"); if (ap_texpr0_is_interval_linear(e) != X::cls(t, 0) || ap_texpr0_array_is_interval_linear(arr, 2) != X::cls(t, 0)) g.fail("class", "ap_texpr0_is_interval_linear"); if (ap_texpr0_is_interval_polynomial(e) != X::cls(t, 1) || ap_texpr0_array_is_interval_polynomial(arr, 2) != X::cls(t, 1)) g.fail("class", "ap_texpr0_is_interval_polynomial"); if (ap_texpr0_is_interval_polyfrac(e) != X::cls(t, 2) || ap_texpr0_array_is_interval_polyfrac(arr, 2) != X::cls(t, 2)) g.fail("class", "ap_texpr0_is_interval_polyfrac");
      auto both = [&](const string& n, const TEP& w, std::function<ap_texpr0_t*(ap_texpr0_t*)> f, std::function<void(ap_texpr0_t*)> fw) { ap_texpr0_t* r = f(e); is(r, w, n); is(e, t, n + " (argument)"); ap_texpr0_free(r); r = ap_texpr0_copy(e); fw(r); is(r, w, n + "_with"); ap_texpr0_free(r); };
      for (size_t d = 0; d < 3; d++) for (auto& s : {td(0), tc(4), tb(AP_TEXPR_ADD, td(d), tc(1))}) { ap_texpr0_t* z = mk_texpr(s); both("substitute x" + std::to_string(d), X::map(t, [&](size_t k) { return k == d ? s : td(k); }), [&](ap_texpr0_t* x) { return ap_texpr0_substitute(x, d, z); }, [&](ap_texpr0_t* x) { ap_texpr0_substitute_with(x, d, z); }); is(z, s, "substitute (argument)"); ap_texpr0_free(z); }
      if (X::depth(t) < 2 || i % 5 == 0) { for (auto& ch : changes(3, 2)) { ap_dimchange_t* d = mkch(ch, 0); both("add_dimensions" + szs(ch), X::map(t, [&](size_t k) { return td(shift(k, ch)); }), [&](ap_texpr0_t* x) { return ap_texpr0_add_dimensions(x, d); }, [&](ap_texpr0_t* x) { ap_texpr0_add_dimensions_with(x, d); }); ap_dimchange_free(d); }
        for (auto& sb : subsets(3)) { ap_dimchange_t* d = mkch(sb, sb.size() / 2); TEP w = X::map(t, [&](size_t k) { size_t r = 0; for (auto p : sb) { if (p == k) return tc(Itv(minf(), pinf())); if (p < k) r++; } return td(k - r); }); both("remove_dimensions" + szs(sb), w, [&](ap_texpr0_t* x) { return ap_texpr0_remove_dimensions(x, d); }, [&](ap_texpr0_t* x) { ap_texpr0_remove_dimensions_with(x, d); });
          for (int ty : {AP_CONS_SUP, AP_CONS_EQMOD}) { ap_scalar_t* md = NULL; if (ty == AP_CONS_EQMOD) { md = ap_scalar_alloc(); ap_scalar_set_int(md, 3); } ap_tcons0_t x = ap_tcons0_make((ap_constyp_t)ty, ap_texpr0_copy(e), md); auto okc = [&](ap_tcons0_t* y, const TEP& w, const string& n) { is(y->texpr0, w, n); if (y->constyp != ty || !y->scalar != !md || (md && ap_scalar_cmp_int(y->scalar, 3))) g.fail("cons", n + ": type or modulus changed"); }; ap_tcons0_t y = ap_tcons0_remove_dimensions(&x, d); okc(&y, w, "tcons remove"); ap_tcons0_clear(&y); y = ap_tcons0_copy(&x); okc(&y, t, "tcons copy"); ap_tcons0_remove_dimensions_with(&y, d); okc(&y, w, "tcons remove_with"); ap_tcons0_array_t ar = ap_tcons0_array_make(2); ar.p[0] = y; ar.p[1] = x; ap_tcons0_array_t br = ap_tcons0_array_remove_dimensions(&ar, d); okc(&br.p[1], w, "tcons array remove"); ap_tcons0_array_clear(&br); ap_tcons0_clear(&ar.p[0]); ar.p[0] = ap_tcons0_copy(&ar.p[1]); ap_tcons0_array_remove_dimensions_with(&ar, d); okc(&ar.p[0], w, "tcons array remove_with"); okc(&ar.p[1], w, "tcons array remove_with"); ap_tcons0_array_clear(&ar); }
          ap_dimchange_free(d); }
        for (auto& p : perms(3)) { ap_dimperm_t* d = mkperm(p); TEP w = X::map(t, [&](size_t k) { return td(p[k]); }); both("permute" + szs(p), w, [&](ap_texpr0_t* x) { return ap_texpr0_permute_dimensions(x, d); }, [&](ap_texpr0_t* x) { ap_texpr0_permute_dimensions_with(x, d); });
          ap_tcons0_array_t ar = ap_tcons0_array_make(2); ar.p[0] = ap_tcons0_make(AP_CONS_EQ, ap_texpr0_copy(e), NULL); ar.p[1] = ap_tcons0_permute_dimensions(&ar.p[0], d); is(ar.p[1].texpr0, w, "tcons permute"); ap_tcons0_permute_dimensions_with(&ar.p[0], d); is(ar.p[0].texpr0, w, "tcons permute_with"); ap_dimperm_t* inv = ap_dimperm_alloc(3); ap_dimperm_invert(inv, d); ap_tcons0_array_t br = ap_tcons0_array_permute_dimensions(&ar, inv); is(br.p[0].texpr0, t, "tcons array permute"); ap_tcons0_array_permute_dimensions_with(&ar, inv); is(ar.p[1].texpr0, t, "tcons array permute_with"); ap_tcons0_array_clear(&ar); ap_tcons0_array_clear(&br); ap_dimperm_free(inv); ap_dimperm_free(d); }
        { vector<size_t> ch = {0, 2}; ap_dimchange_t* d = mkch(ch, 1); TEP w = X::map(t, [&](size_t k) { return td(shift(k, ch)); }); ap_tcons0_array_t ar = ap_tcons0_array_make(2); ar.p[0] = ap_tcons0_make(AP_CONS_EQ, ap_texpr0_copy(e), NULL); ar.p[1] = ap_tcons0_add_dimensions(&ar.p[0], d); is(ar.p[1].texpr0, w, "tcons add"); ap_tcons0_array_t br = ap_tcons0_array_add_dimensions(&ar, d); is(br.p[0].texpr0, w, "tcons array add"); ap_tcons0_add_dimensions_with(&ar.p[0], d); is(ar.p[0].texpr0, w, "tcons add_with"); ap_tcons0_array_clear(&ar); ap_dimchange_add_invert(d); ap_tcons0_array_remove_dimensions_with(&br, d); is(br.p[0].texpr0, t, "tcons array add then remove"); ap_tcons0_array_clear(&br); ap_dimchange_free(d); } }
      // printed form read back by precedence
      for (int names = 0; names < 2; names++) { string s = prints([&](FILE* o) { ap_texpr0_fprint(o, e, names ? nm : NULL); }); size_t p = 0; bool bad = false;
        std::function<TEP(int)> expr; std::function<TEP()> prim; auto ty = [&](int& rt, int& rd) { rt = 0; rd = 0; if (p < s.size() && s[p] == '_') { p++; size_t q = s.find(',', p); if (q == string::npos) { bad = true; return; } string n = s.substr(p, q - p); rt = -1; for (int k = 1; k < 6; k++) if (n == RTN[k]) rt = k; p = q + 1; rd = -1; for (int k = 0; k < 5; k++) { string r = RDN[k]; if (s.compare(p, r.size(), r) == 0) rd = k; } if (rt < 0 || rd < 0) { bad = true; return; } p += strlen(RDN[rd]); } };
        auto number = [&](EQ& v) { bool neg = false; if (s[p] == '-') { neg = true; p++; } else if (s[p] == '+') p++; if (s.compare(p, 2, "oo") == 0) { v = neg ? minf() : pinf(); p += 2; return; } size_t b = p; while (p < s.size() && (isdigit(s[p]) || s[p] == '/' || s[p] == '.')) p++; if (b == p) { bad = true; return; } string t = s.substr(b, p - b); size_t d = t.find('.'); Q x; if (d != string::npos) { size_t dec = t.size() - d - 1; t.erase(d, 1); x = Q(mpz_class(t)); for (size_t i = 0; i < dec; i++) x /= 10; } else x = Q(t); x.canonicalize(); v = EQ(neg ? Q(-x) : x); };
        prim = [&]() -> TEP { if (bad || p >= s.size()) { bad = true; return tc(0); } if (s[p] == '(') { p++; TEP t = expr(0); if (p >= s.size() || s[p] != ')') bad = true; p++; return t; } if (s.compare(p, 4, "cast") == 0 || s.compare(p, 4, "sqrt") == 0) { int op = s[p] == 'c' ? AP_TEXPR_CAST : AP_TEXPR_SQRT; p += 4; int rt, rd; ty(rt, rd); TEP a = prim(); return tu(op, a, rt, rd); }
          if (s[p] == '-' && (s[p + 1] == '(' || s[p + 1] == 'c' || s[p + 1] == 's')) { p++; TEP a = prim(); return tu(AP_TEXPR_NEG, a, 0, 0); } if (s[p] == '[') { p++; EQ a, b; number(a); if (s[p] != ',') bad = true; p++; number(b); if (s[p] != ']') bad = true; p++; return tc(Itv(a, b)); } if (names) { if (s[p] >= 'u' && s[p] <= 'w') return td(s[p++] - 'u'); } else if (s[p] == 'x') { p++; size_t d = 0; while (p < s.size() && isdigit(s[p])) d = d * 10 + (s[p++] - '0'); return td(d); } EQ a; number(a); return tc(Itv(a, a)); };
        expr = [&](int lv) -> TEP { TEP l = prim(); while (!bad && p < s.size() && s[p] == ' ') { size_t q = p + 1; int op = s[q] == '+' ? AP_TEXPR_ADD : s[q] == '-' ? AP_TEXPR_SUB : s[q] == '*' ? AP_TEXPR_MUL : s[q] == '/' ? AP_TEXPR_DIV : s[q] == '%' ? AP_TEXPR_MOD : s[q] == '^' ? AP_TEXPR_POW : -1; if (op < 0) { bad = true; break; } int pr = op < 2 ? 1 : op < 5 ? 2 : 3; if (pr <= lv) break; p = q + 1; int rt, rd; ty(rt, rd); if (p >= s.size() || s[p] != ' ') { bad = true; break; } p++; TEP r = expr(pr); l = tb(op, l, r, rt, rd); } return l; };
        TEP b = expr(0); if (p != s.size()) bad = true; std::function<TEP(const TEP&)> norm = [&](const TEP& a) -> TEP { if (!a || a->kind != 2) return a; auto t = std::make_shared<TE>(*a); if (X::exact(a)) { t->rt = 0; t->rd = 0; } t->a = norm(a->a); t->b = norm(a->b); return t; }; if (bad || !X::eq(norm(b), norm(t))) g.fail("print", "printed as " + s + (bad ? "" : " reads back as " + tes(b)));
        ap_scalar_t* md = ap_scalar_alloc(); ap_scalar_set_int(md, 3); for (int k = 0; k < 5; k++) { ap_tcons0_t x = ap_tcons0_make((ap_constyp_t)k, e, md); string u = prints([&](FILE* o) { ap_tcons0_fprint(o, &x, names ? nm : NULL); }); static const char* TAIL[] = {" = 0", " >= 0", " > 0", " = 0 mod 3", " != 0"}; if (u != s + TAIL[k]) g.fail("print", "constraint printed as " + u); } ap_scalar_free(md); }
      is(e, t, "argument"); ap_texpr0_free(e); g.ok(std::hash<string>()(tes(t))); } });
  for (int part = 0; part < 16; part++) R.group("treepair " + std::to_string(part), [=](G& g) { vector<TEP> P; for (size_t i = 0; i < TS.size(); i += (T ? 2 : 7)) P.push_back(TS[i]); vector<ap_texpr0_t*> O; for (auto& t : P) O.push_back(mk_texpr(t)); struct FreeAll { vector<ap_texpr0_t*>& v; ~FreeAll() { for (auto* x : v) ap_texpr0_free(x); } } freeall{O}; for (size_t i = part; i < P.size(); i += 16) { ap_texpr0_t* a = mk_texpr(P[i], R_DBL); for (size_t j = 0; j < P.size(); j++) { if (!g.next([&] { return tes(P[i]) + " , " + tes(P[j]); })) continue; bool w = X::eq(P[i], P[j]), r = ap_texpr0_equal(a, O[j]); if (w != r) g.fail("equal", "ap_texpr0_equal gives " + std::to_string(r)); if (w && ap_texpr0_hash(a) != ap_texpr0_hash(O[j])) g.fail("hash", "equal trees hash differently"); g.ok(r); } ap_texpr0_free(a); } });
  R.group("from_linexpr", [=](G& g) { vector<Itv> al = {I0(), Itv(Q(1)), Itv(Q(-2)), Itv(mkq(1, 3)), I(-1, 2)}; for (auto& c : vectors(al, 3)) for (auto& k : al) for (int f = 0; f < F_NUM; f++) { if (!g.next([&] { return string(FN[f]) + vs(c, k); })) continue; ap_linexpr0_t* e = build(c, k, f); ap_texpr0_t* t = ap_texpr0_from_linexpr0(e); TEP b = X::back(t); if (!X::cls(b, 0)) g.fail("from", "not linear: " + tes(b)); bool sc = true; for (auto& x : c) if (!x.scalar()) sc = false; if (!k.scalar()) sc = false; Lin l; l.c = c; l.k = k; for (auto& p : vector<Pt>{{Q(0), Q(0), Q(0)}, {Q(1), Q(0), Q(0)}, {Q(0), Q(1), Q(0)}, {Q(0), Q(0), Q(1)}, {mkq(1, 2), Q(-3), Q(7)}}) { Itv v = eval_itv(l, p); auto r = teval(b, p); Q lo = r[0], hi = r[0]; for (auto& q : r) { if (q < lo) lo = q; if (q > hi) hi = q; if (!v.has(q)) g.fail("from", "value " + qs(q) + " outside " + v.str()); } if (sc && (r.size() != 1 || r[0] != v.lo.v)) g.fail("from", "value " + qs(r[0]) + " expected " + v.str()); }
      ap_lincons0_t lc = ap_lincons0_make(AP_CONS_SUP, e, NULL); ap_tcons0_t tcn = ap_tcons0_from_lincons0(&lc); if (!ap_texpr0_equal(tcn.texpr0, t) || tcn.constyp != AP_CONS_SUP || tcn.scalar) g.fail("from", "ap_tcons0_from_lincons0 gives another constraint"); ap_tcons0_clear(&tcn); lc.constyp = AP_CONS_EQMOD; lc.scalar = ap_scalar_alloc(); ap_scalar_set_int(lc.scalar, 5); tcn = ap_tcons0_from_lincons0(&lc); if (!ap_texpr0_equal(tcn.texpr0, t) || tcn.constyp != AP_CONS_EQMOD || !tcn.scalar || ap_scalar_cmp_int(tcn.scalar, 5)) g.fail("from", "ap_tcons0_from_lincons0 of a congruence"); ap_tcons0_clear(&tcn); Map m; Itv kk; read(e, m, kk); if (!meq(m, mapof(c)) || !ieq(kk, k)) g.fail("from", "argument changed"); ap_texpr0_free(t); ap_lincons0_clear(&lc); g.ok(1); } });
  R.group("tree constants", [=](G& g) { struct K { const char* n; Itv v; bool iv; std::function<ap_texpr0_t*()> f; }; Q h = mkq(1, 2), tq = mkq(7, 3); vector<K> ks = {{"int", Itv(Q(-5)), false, [] { return ap_texpr0_cst_scalar_int(-5); }}, {"frac", Itv(mkq(-2, 3)), false, [] { return ap_texpr0_cst_scalar_frac(-4, 6); }}, {"double", Itv(h), false, [] { return ap_texpr0_cst_scalar_double(0.5); }}, {"mpq", Itv(tq), false, [&] { return ap_texpr0_cst_scalar_mpq(tq.get_mpq_t()); }}, {"mpfr", Itv(h), false, [] { mpfr_t m; mpfr_init2(m, 80); mpfr_set_d(m, 0.5, MPFR_RNDN); auto r = ap_texpr0_cst_scalar_mpfr(m); mpfr_clear(m); return r; }}, {"scalar", Itv(pinf(), pinf()), false, [] { ap_scalar_t* s = ap_scalar_alloc(); ap_scalar_set_infty(s, 1); auto r = ap_texpr0_cst_scalar(s); ap_scalar_free(s); return r; }},
      {"i_int", I(-5, 3), true, [] { return ap_texpr0_cst_interval_int(-5, 3); }}, {"i_frac", Itv(EQ(mkq(-2, 3)), EQ(mkq(5, 7))), true, [] { return ap_texpr0_cst_interval_frac(-2, 3, 5, 7); }}, {"i_double", Itv(EQ(h), EQ(Q(4))), true, [] { return ap_texpr0_cst_interval_double(0.5, 4); }}, {"i_mpq", Itv(EQ(h), EQ(tq)), true, [&] { return ap_texpr0_cst_interval_mpq(h.get_mpq_t(), tq.get_mpq_t()); }}, {"i_mpfr", Itv(EQ(h), EQ(Q(2))), true, [] { mpfr_t m, n; mpfr_init2(m, 80); mpfr_init2(n, 30); mpfr_set_d(m, 0.5, MPFR_RNDN); mpfr_set_d(n, 2, MPFR_RNDN); auto r = ap_texpr0_cst_interval_mpfr(m, n); mpfr_clear(m); mpfr_clear(n); return r; }}, {"i_scalar", Itv(minf(), EQ(Q(3))), true, [] { ap_scalar_t *s = ap_scalar_alloc(), *t = ap_scalar_alloc(); ap_scalar_set_infty(s, -1); ap_scalar_set_int(t, 3); auto r = ap_texpr0_cst_interval_scalar(s, t); ap_scalar_free(s); ap_scalar_free(t); return r; }}, {"i_top", Itv(minf(), pinf()), true, [] { return ap_texpr0_cst_interval_top(); }}, {"i", I(2, 3), true, [] { ap_interval_t* i = ap_interval_alloc(); ap_interval_set_int(i, 2, 3); auto r = ap_texpr0_cst_interval(i); ap_interval_free(i); return r; }}};
    for (auto& k : ks) { if (!g.next([&] { return string(k.n); })) continue; ap_texpr0_t* t = k.f(); if (t->discr != AP_TEXPR_CST || !ieq(coeff_q(&t->val.cst), k.v) || (t->val.cst.discr == AP_COEFF_INTERVAL) != k.iv) g.fail("cst", "gives " + coeff_q(&t->val.cst).str()); ap_texpr0_free(t); g.ok(1); } });
  // F. dimension objects
  R.group("dimperm", [=](G& g) { size_t N = T ? 5 : 4; for (size_t n = 0; n <= N; n++) for (auto& p : perms(n)) { for (auto& q : perms(n)) { if (!g.next([&] { return szs(p) + szs(q); })) continue; ap_dimperm_t *a = mkperm(p), *b = mkperm(q), *c = ap_dimperm_alloc(n); ap_dimperm_compose(c, a, b); for (size_t i = 0; i < n; i++) if (c->dim[i] != q[p[i]]) g.fail("compose", "wrong"); ap_dimperm_invert(c, a); for (size_t i = 0; i < n; i++) if (c->dim[p[i]] != i) g.fail("invert", "wrong"); ap_dimperm_set_id(c); for (size_t i = 0; i < n; i++) if (c->dim[i] != i) g.fail("id", "wrong"); for (size_t i = 0; i < n; i++) if (a->dim[i] != p[i] || b->dim[i] != q[i]) g.fail("args", "argument changed"); if (c->size != n) g.fail("size", "wrong"); string s = prints([&](FILE* o) { ap_dimperm_fprint(o, a); }), w = "dimperm: size=" + std::to_string(n) + "\n"; for (size_t i = 0; i < n; i++) { char bb[64]; sprintf(bb, "%2lu -> %2lu\n", i, p[i]); w += bb; } if (s != w) g.fail("print", s); ap_dimperm_free(a); ap_dimperm_free(b); ap_dimperm_free(c); g.ok(1); } } });
  R.group("dimchange", [=](G& g) { for (size_t n = 0; n <= 4; n++) for (auto& ch : changes(n, T ? 4 : 3)) for (size_t ints = 0; ints <= ch.size(); ints++) { if (!g.next([&] { return std::to_string(n) + szs(ch) + std::to_string(ints); })) continue; ap_dimchange_t* d = mkch(ch, ints); if (d->intdim != ints || d->realdim != ch.size() - ints) g.fail("alloc", "sizes"); 
      // removing what was added gives the original vector back
      vector<long> v; for (size_t i = 0; i < n; i++) v.push_back(i); vector<long> w; size_t k = 0; for (size_t i = 0; i <= n; i++) { while (k < ch.size() && ch[k] == i) { w.push_back(-1); k++; } if (i < n) w.push_back(i); } ap_dimchange_add_invert(d); std::set<size_t> rm; for (size_t i = 0; i < ch.size(); i++) { if (rm.count(d->dim[i])) g.fail("invert", "repetition"); rm.insert(d->dim[i]); } vector<long> x; for (size_t i = 0; i < w.size(); i++) if (!rm.count(i)) x.push_back(w[i]); if (x != v) g.fail("invert", "does not remove the added dimensions"); for (size_t i = 1; i < ch.size(); i++) if (d->dim[i] <= d->dim[i - 1]) g.fail("invert", "not sorted"); ap_dimchange_free(d); g.ok(1); }
    for (int m = 0; m < 4; m++) { if (!g.next([&] { return "dimchange2 " + std::to_string(m); })) continue; ap_dimchange_t *a = m & 1 ? mkch({0, 1}, 1) : NULL, *r = m & 2 ? mkch({2}, 0) : NULL; ap_dimchange2_t* d = ap_dimchange2_alloc(a, r); if (d->add != a || d->remove != r) g.fail("dimchange2", "fields"); string s = prints([&](FILE* o) { ap_dimchange2_fprint(o, d); }); if ((s.find("NULL") == string::npos) != (m == 3)) g.fail("print", s); ap_dimchange2_clear(d); if (d->add || d->remove) g.fail("dimchange2", "not cleared"); ap_dimchange2_free(d); g.ok(1); } });
  return R.run();
}
