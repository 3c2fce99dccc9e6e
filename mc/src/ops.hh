// Operation alphabets of the domain explorer, with their reference semantics.
#ifndef MC_OPS_HH
#define MC_OPS_HH
#include "base.hh"
#include "texpr.hh"
typedef std::function<bool(const Pt&)> Pred;
struct Args { const Poly* A; const Poly* B; };
struct WArgs { const vector<Pt>* WA; Pred inA; const vector<Pt>* WB; Pred inB; };
// claims: for which kinds the result must be the best one even if no flag is raised
enum { CL_BOX = 1, CL_OCT = 2, CL_POLY = 4, CL_EQ = 8, CL_GRID = 16, CL_POLYS = 32 };  // POLYS: polyhedra with strict inequalities only
struct Op {
  string txt, grp; bool identity = false; int I, R, OI, OR, arity; bool destr; int claim; bool core;
  std::function<ap_abstract0_t*(ap_manager_t*, bool, ap_abstract0_t*, ap_abstract0_t*)> run;
  std::function<bool(const Args&, vector<Poly>&)> ref;          // pieces; returns true if they are the whole result. may be null
  std::function<void(const WArgs&, vector<Pt>&)> wit;            // some concrete results
  std::function<bool(const PPL::Grid*, const PPL::Grid*, PPL::Grid&)> gref;  // exact grid result (grid kind); may be null
  vector<size_t> fd, ad; vector<Lin> ae;   // forgotten dimensions; assigned dimensions and their scalar expressions
  bool bin2arg = false;   // second operand is 'dest' (same dims as result)
};
typedef std::shared_ptr<Op> OpP;

static inline int rot(int& s, int n) { s = (s + 1) % n; return s; }

// ---- reference helpers ----
// swap dimension pairs and drop the trailing k dims
struct PF { vector<long> m; bool has_empty_codomain() const { for (auto x : m) if (x >= 0) return false; return true; }
  PPL::dimension_type max_in_codomain() const { long r = 0; for (auto x : m) r = std::max(r, x); return r; }
  bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { if (m[i] < 0) return false; j = m[i]; return true; } };
template <class S> static inline S remap(const S& P, const vector<long>& m) { S r(P); PF f; f.m = m; r.map_space_dimensions(f); return r; }

// parallel assignment of dims d[k] by interval forms e[k]
static inline void ref_assign(const Poly& A, const vector<size_t>& d, const vector<Lin>& e, vector<Poly>& out) {
  size_t n = A.space_dimension(), k = d.size(); vector<const Lin*> es; for (auto& x : e) es.push_back(&x);
  if (A.is_empty()) return;
  signs(es, n, [&](const vector<int>& sg, const Poly& reg) {
    Poly p(A); p.intersection_assign(reg); if (p.is_empty()) return;
    p.add_space_dimensions_and_embed(k);
    for (size_t j = 0; j < k; j++) { LinB S = bound_form(e[j], sg, true), L = bound_form(e[j], sg, false);
      if (!S.inf) { vector<Q> c(S.c); c.resize(n + k, Q(0)); c[n + j] = -1; p.add_constraint(ppl_lin(c, S.k, n + k) >= 0); }
      if (!L.inf) { vector<Q> c(L.c); for (auto& x : c) x = -x; c.resize(n + k, Q(0)); c[n + j] = 1; p.add_constraint(ppl_lin(c, -L.k, n + k) >= 0); } }
    vector<long> m(n + k); for (size_t i = 0; i < n; i++) m[i] = i; for (size_t j = 0; j < k; j++) { m[d[j]] = -1; m[n + j] = d[j]; }
    out.push_back(remap(p, m));
  });
}
static inline void ref_subst(const Poly& A, const vector<size_t>& d, const vector<Lin>& e, vector<Poly>& out) {
  size_t n = A.space_dimension(), k = d.size(); vector<const Lin*> es; for (auto& x : e) es.push_back(&x);
  if (A.is_empty()) return;
  Poly P(A); P.add_space_dimensions_and_embed(k);
  vector<long> m(n + k); for (size_t i = 0; i < n + k; i++) m[i] = i; for (size_t j = 0; j < k; j++) { m[d[j]] = n + j; m[n + j] = d[j]; }
  P = remap(P, m);
  signs(es, n, [&](const vector<int>& sg, const Poly& reg) {
    Poly p(P), r(reg); r.add_space_dimensions_and_embed(k); p.intersection_assign(r);
    for (size_t j = 0; j < k; j++) { LinB S = bound_form(e[j], sg, true), L = bound_form(e[j], sg, false);
      if (!S.inf) { vector<Q> c(S.c); c.resize(n + k, Q(0)); c[n + j] = -1; p.add_constraint(ppl_lin(c, S.k, n + k) >= 0); }
      if (!L.inf) { vector<Q> c(L.c); for (auto& x : c) x = -x; c.resize(n + k, Q(0)); c[n + j] = 1; p.add_constraint(ppl_lin(c, -L.k, n + k) >= 0); } }
    p.remove_higher_space_dimensions(n); if (!p.is_empty()) out.push_back(p);
  });
}
static inline bool is_int(const Q& q) { return q.get_den() == 1; }
static inline bool int_ok(const Pt& p, int I) { for (int i = 0; i < I; i++) if (!is_int(p[i])) return false; return true; }
static inline void push_pt(vector<Pt>& v, const Pt& p, int I) { if (int_ok(p, I)) v.push_back(p); }
static inline vector<Q> samples(const Itv& v) {
  vector<Q> o; if (v.empty()) return o;
  if (!v.lo.inf) addval(o, v.lo.v); if (!v.hi.inf) addval(o, v.hi.v);
  if (!v.lo.inf && !v.hi.inf) { addval(o, (v.lo.v + v.hi.v) / 2); Q f = Q(zceil(v.lo.v)); if (f <= v.hi.v) addval(o, f); f = Q(zfloor(v.hi.v)); if (f >= v.lo.v) addval(o, f); }
  else if (!v.lo.inf) { addval(o, v.lo.v + 3); addval(o, Q(zceil(v.lo.v))); } else if (!v.hi.inf) { addval(o, v.hi.v - 3); addval(o, Q(zfloor(v.hi.v))); }
  else { addval(o, Q(0)); addval(o, Q(5)); addval(o, Q(-6)); }
  return o;
}
static inline void product(const vector<vector<Q>>& ch, std::function<void(const vector<Q>&)> f) {
  vector<Q> cur(ch.size()); int cnt = 0;
  std::function<void(size_t)> rec = [&](size_t i) { if (cnt > 64) return; if (i == ch.size()) { cnt++; f(cur); return; } for (auto& x : ch[i]) { cur[i] = x; rec(i + 1); } };
  rec(0);
}
static inline void grid_points(size_t n, std::function<void(const Pt&)> f) {
  static const long v[] = {0, 1, -1, 2, -2, 3}; size_t k = n <= 2 ? 6 : n == 3 ? 5 : 3; Pt p(n);
  std::function<void(size_t)> rec = [&](size_t i) { if (i == n) { f(p); return; } for (size_t j = 0; j < k; j++) { p[i] = v[j]; rec(i + 1); } };
  rec(0);
}

struct Alpha {   // alphabet for one dimensionality
  int I, R, n, tier; vector<OpP> ops; int cyc = 0;
  vector<vector<Q>> coefs; // linear forms
  Alpha(int I, int R, int tier) : I(I), R(R), n(I + R), tier(tier) { build(); }

  OpP mk(const string& grp, const string& txt, int arity, int OI, int OR) {
    OpP o = std::make_shared<Op>(); o->grp = grp; o->txt = grp + "(" + txt + ")"; o->I = I; o->R = R; o->OI = OI; o->OR = OR; o->arity = arity; o->destr = true; o->claim = 0; o->core = false;
    for (auto& q : ops) if (q->txt == o->txt) { o->txt += "#dup" + std::to_string(ops.size()); break; }
    ops.push_back(o); return o; }
  static Lin lin(const vector<Q>& c, const Q& k) { Lin l; for (auto& x : c) l.c.push_back(Itv(x)); l.k = Itv(k); return l; }
  Lin zero() { return lin(vector<Q>(n, Q(0)), Q(0)); }

  vector<Lin> forms(int level) {   // level 0: few, 1: many, 2: most
    vector<Lin> r; vector<Q> cs, ks;
    if (level == 0) { cs = {mkq(0), mkq(1), mkq(-1)}; ks = {mkq(0), mkq(1)}; }
    else if (n <= 1) { cs = {mkq(0), mkq(1), mkq(-1), mkq(2), mkq(-1, 3)}; ks = {mkq(0), mkq(1), mkq(-1), mkq(5, 2)}; }
    else if (n == 2) { cs = {mkq(0), mkq(1), mkq(-1), mkq(2)}; ks = {mkq(0), mkq(1), mkq(-3, 2)}; if (level > 1) cs.push_back(mkq(-1, 2)); }
    else { cs = {mkq(0), mkq(1), mkq(-1)}; ks = {mkq(0), mkq(1)}; if (level > 1) { cs.push_back(mkq(2)); ks.push_back(mkq(-3, 2)); } }
    vector<Q> c(n);
    std::function<void(int)> rec = [&](int i) { if (i == n) { for (auto& k : ks) r.push_back(lin(c, k)); return; } for (auto& x : cs) { c[i] = x; rec(i + 1); } };
    rec(0);
    if (level > 0 && n >= 3) { vector<Q> d(n, Q(0)); d[0] = 2; d[n - 1] = -1; r.push_back(lin(d, mkq(1, 2))); d[0] = mkq(1, 3); d[1] = 1; r.push_back(lin(d, mkq(-2))); d[0] = -1; d[1] = -2; d[n - 1] = 3; r.push_back(lin(d, mkq(2))); }
    return r;
  }
  vector<Lin> iforms() {   // interval coefficients
    vector<Lin> r; vector<Itv> ks = {Itv(EQ(mkq(0)), EQ(mkq(1))), Itv(EQ(mkq(-1)), EQ(mkq(2))), Itv(minf(), EQ(mkq(0))), Itv(EQ(mkq(1)), pinf()), Itv(minf(), pinf())};
    vector<Itv> cs = {Itv(EQ(mkq(0)), EQ(mkq(1))), Itv(EQ(mkq(-1)), EQ(mkq(1))), Itv(EQ(mkq(1)), EQ(mkq(2))), Itv(EQ(mkq(-1)), EQ(mkq(-1, 2))), Itv(minf(), pinf()), Itv(EQ(mkq(0)), pinf())};
    vector<Lin> base = forms(0);
    size_t step = n <= 1 ? 1 : n == 2 ? 2 : 5;
    for (size_t j = 0; j < ks.size(); j++) for (size_t i = j % step; i < base.size(); i += step) { Lin l = base[i]; if (l.k.lo.v != 0) continue; l.k = ks[j]; r.push_back(l); }
    for (int d = 0; d < n; d++) for (size_t j = 0; j < cs.size(); j++) {
      Lin l = zero(); l.c[d] = cs[j]; r.push_back(l);
      l.k = Itv(mkq(1)); if (n > 1) l.c[(d + 1) % n] = Itv(mkq(j % 2 ? -1 : 1)); r.push_back(l);
      if (n > 1 && j < 3) { l.c[(d + 1) % n] = cs[(j + 1) % 3]; l.k = ks[j % 2]; r.push_back(l); } }
    return r;
  }
  static int octform(const Lin& l) { int nz = 0; for (auto& c : l.c) { if (!c.scalar()) return 0; if (c.lo.v == 0) continue; if (abs(c.lo.v) != 1) return 0; nz++; } return nz <= 2; }
  static int assform(const Lin& l) { int nz = 0; for (auto& c : l.c) { if (!c.scalar()) return 0; if (c.lo.v == 0) continue; if (abs(c.lo.v) != 1) return 0; nz++; } return nz <= 1; }
  static int nvars(const Lin& l) { int nz = 0; for (auto& c : l.c) if (!(c.scalar() && c.lo.v == 0)) nz++; return nz; }

  void add_meet(const vector<Cons>& cs, bool core = false, int rep = -1, int sparse = -1) {
    int rp = rep >= 0 ? rep : rot(cyc, 6) % 3, sp = sparse >= 0 ? sparse : cyc / 3;
    string t; for (auto& c : cs) t += (t.empty() ? "" : ";") + c.str(); t += string("|") + "qdm"[rp] + (sp ? "s" : "");
    OpP o = mk("meet_lincons", t, 1, I, R); o->core = core; int n = this->n, I = this->I;
    o->run = [=](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { ap_lincons0_array_t arr = mk_lincons_array(cs, sp, rp); ap_abstract0_t* r = ap_abstract0_meet_lincons_array(m, d, a, &arr); ap_lincons0_array_clear(&arr); return r; };
    o->ref = [=](const Args& x, vector<Poly>& out) { bool complete = true; vector<Poly> cur{*x.A}; for (auto& c : cs) { vector<Poly> pc = cons_pieces(c, n, complete), nx; for (auto& p : cur) for (auto& q : pc) { Poly r(p); r.intersection_assign(q); if (!r.is_empty()) nx.push_back(r); } cur = nx; } out = cur; return complete; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { bool ok = true; for (auto& c : cs) if (!cons_may(c, p)) ok = false; if (ok) push_pt(out, p, I); } };
    bool sc = true, oc = true, poly = true, eq = true, hasstrict = false; for (auto& c : cs) { if (!c.e.scalar()) sc = false; if (!octform(c.e)) oc = false; if (c.t == AP_CONS_DISEQ || c.t == AP_CONS_EQMOD) poly = false; if (c.t != AP_CONS_EQ) eq = false; if (c.t == AP_CONS_SUP) hasstrict = true; }
    if (sc && poly) { o->claim |= hasstrict ? CL_POLYS : CL_POLY; if (eq) o->claim |= CL_EQ; if (!hasstrict) { if (oc) o->claim |= CL_OCT; if (cs.size() <= 1) o->claim |= CL_BOX; } }
    bool geq = true; for (auto& c : cs) if (!c.e.scalar() || (c.t != AP_CONS_EQ && c.t != AP_CONS_EQMOD)) geq = false;
    if (geq) o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; for (auto& c : cs) { vector<Q> k(n); for (int i = 0; i < n; i++) k[i] = c.e.c[i].lo.v; mpz_class den; 
        // e = 0 mod m   with rational e: scale
        mpz_class d = c.e.k.lo.v.get_den(); for (auto& x : k) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), x.get_den_mpz_t()); if (c.t == AP_CONS_EQMOD) mpz_lcm(d.get_mpz_t(), d.get_mpz_t(), c.mod.get_den_mpz_t());
        vector<Q> k2(k); for (auto& x : k2) x *= Q(d); Q c2 = c.e.k.lo.v * Q(d); PPL::Linear_Expression e = ppl_lin(k2, c2, n); mpz_class md(0); if (c.t == AP_CONS_EQMOD) { Q m2 = abs(c.mod) * Q(d); md = m2.get_num(); }
        if (md == 0) G.add_congruence((e %= 0) / 0); else G.add_congruence((e %= 0) / PPL::Coefficient(md)); } return true; };
  }
  void add_asg(bool subst, const vector<size_t>& d, const vector<Lin>& e, bool dest, bool core = false, int rep = -1, int sparse = -1) {
    int rp = rep >= 0 ? rep : rot(cyc, 6) % 3, sp = sparse >= 0 ? sparse : cyc / 3;
    string t; for (size_t k = 0; k < d.size(); k++) t += (k ? ";x" : "x") + std::to_string(d[k]) + ":=" + e[k].str(); t += string("|") + "qdm"[rp] + (sp ? "s" : "") + (dest ? "&dest" : "");
    OpP o = mk(subst ? "subst_lin" : "assign_lin", t, dest ? 2 : 1, I, R); o->bin2arg = dest; o->core = core; int n = this->n, I = this->I; if (!subst && !dest) { bool sc = true; for (auto& x : e) if (!x.scalar()) sc = false; if (sc) o->ad = d, o->ae = e; }
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t* b) {
      vector<ap_dim_t> td(d.begin(), d.end()); vector<ap_linexpr0_t*> te; for (auto& x : e) te.push_back(mk_linexpr(x, sp, rp)); ap_abstract0_t* r;
      if (d.size() == 1 && rp) r = subst ? ap_abstract0_substitute_linexpr(m, ds, a, td[0], te[0], dest ? b : NULL) : ap_abstract0_assign_linexpr(m, ds, a, td[0], te[0], dest ? b : NULL);
      else r = subst ? ap_abstract0_substitute_linexpr_array(m, ds, a, td.data(), te.data(), td.size(), dest ? b : NULL) : ap_abstract0_assign_linexpr_array(m, ds, a, td.data(), te.data(), td.size(), dest ? b : NULL);
      for (auto x : te) ap_linexpr0_free(x); return r; };
    o->ref = [=](const Args& x, vector<Poly>& out) { if (subst) ref_subst(*x.A, d, e, out); else ref_assign(*x.A, d, e, out); if (dest) { vector<Poly> o2; for (auto& p : out) { Poly q(p); q.intersection_assign(*x.B); if (!q.is_empty()) o2.push_back(q); } out = o2; } return true; };
    if (!subst) o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { vector<vector<Q>> ch; for (auto& l : e) ch.push_back(samples(eval_itv(l, p))); product(ch, [&](const vector<Q>& v) { Pt q(p); for (size_t k = 0; k < d.size(); k++) q[d[k]] = v[k]; if (!dest || x.inB(q)) push_pt(out, q, I); }); } };
    else o->wit = [=](const WArgs& x, vector<Pt>& out) {
      auto tryx = [&](const Pt& p) { vector<vector<Q>> ch; for (auto& l : e) ch.push_back(samples(eval_itv(l, p))); bool ok = false; product(ch, [&](const vector<Q>& v) { if (ok) return; Pt q(p); for (size_t k = 0; k < d.size(); k++) q[d[k]] = v[k]; if (int_ok(q, I) && x.inA(q)) ok = true; }); if (ok && (!dest || x.inB(p))) push_pt(out, p, I); };
      grid_points(n, tryx); for (auto& p : *x.WA) tryx(p);
      if (d.size() == 1) for (auto& w : *x.WA) { Itv cf = e[0].c[d[0]]; if (!cf.scalar() || cf.lo.v == 0) continue; Lin l = e[0]; l.c[d[0]] = Itv(Q(0)); for (auto& v : samples(eval_itv(l, w))) { Pt q(w); q[d[0]] = (w[d[0]] - v) / cf.lo.v; if (!dest || x.inB(q)) push_pt(out, q, I); } } };
    bool sc = true, as = true; for (auto& l : e) { if (!l.scalar()) sc = false; if (!assform(l)) as = false; }
    if (sc) o->claim |= CL_POLY; if (sc && !subst && !dest) o->claim |= CL_EQ;
    if (as && sc && d.size() == 1 && !dest) o->claim |= CL_OCT;
    if (sc && !dest && d.size() == 1) o->claim |= CL_BOX;
    if (sc && !dest && d.size() == 1) o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; vector<Q> k(n); for (int i = 0; i < n; i++) k[i] = e[0].c[i].lo.v; mpz_class dd = e[0].k.lo.v.get_den(); for (auto& x : k) mpz_lcm(dd.get_mpz_t(), dd.get_mpz_t(), x.get_den_mpz_t()); PPL::Linear_Expression le = ppl_lin(k, e[0].k.lo.v, n); if (subst) G.affine_preimage(PPL::Variable(d[0]), le, PPL::Coefficient(dd)); else G.affine_image(PPL::Variable(d[0]), le, PPL::Coefficient(dd)); return true; };
  }
  void add_tasg(bool subst, const vector<size_t>& d, const vector<TEP>& e, bool dest) {
    int rp = rot(cyc, 6) % 3; string t; for (size_t k = 0; k < d.size(); k++) t += (k ? ";x" : "x") + std::to_string(d[k]) + ":=" + tes(e[k]); t += string("|") + "qdm"[rp] + (dest ? "&dest" : "");
    OpP o = mk(subst ? "subst_texpr" : "assign_texpr", t, dest ? 2 : 1, I, R); o->bin2arg = dest; int n = this->n, I = this->I;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t* b) {
      vector<ap_dim_t> td(d.begin(), d.end()); vector<ap_texpr0_t*> te; for (auto& x : e) te.push_back(mk_texpr(x, rp)); ap_abstract0_t* r;
      if (d.size() == 1 && rp) r = subst ? ap_abstract0_substitute_texpr(m, ds, a, td[0], te[0], dest ? b : NULL) : ap_abstract0_assign_texpr(m, ds, a, td[0], te[0], dest ? b : NULL);
      else r = subst ? ap_abstract0_substitute_texpr_array(m, ds, a, td.data(), te.data(), td.size(), dest ? b : NULL) : ap_abstract0_assign_texpr_array(m, ds, a, td.data(), te.data(), td.size(), dest ? b : NULL);
      for (auto x : te) ap_texpr0_free(x); return r; };
    if (!subst) o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { vector<vector<Q>> ch; for (auto& l : e) ch.push_back(teval(l, p)); product(ch, [&](const vector<Q>& v) { Pt q(p); for (size_t k = 0; k < d.size(); k++) q[d[k]] = v[k]; if (!dest || x.inB(q)) push_pt(out, q, I); }); } };
    else o->wit = [=](const WArgs& x, vector<Pt>& out) {
      auto tryx = [&](const Pt& p) { vector<vector<Q>> ch; for (auto& l : e) ch.push_back(teval(l, p)); bool ok = false; product(ch, [&](const vector<Q>& v) { if (ok) return; Pt q(p); for (size_t k = 0; k < d.size(); k++) q[d[k]] = v[k]; if (int_ok(q, I) && x.inA(q)) ok = true; }); if (ok && (!dest || x.inB(p))) push_pt(out, p, I); };
      grid_points(n, tryx); for (auto& p : *x.WA) tryx(p); };
  }
  void add_tmeet(const vector<TCons>& cs) {
    int rp = rot(cyc, 6) % 3; string t; for (auto& c : cs) t += (t.empty() ? "" : ";") + c.str(); t += string("|") + "qdm"[rp];
    OpP o = mk("meet_tcons", t, 1, I, R); int I = this->I;
    o->run = [=](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { ap_tcons0_array_t arr = mk_tcons_array(cs, rp); ap_abstract0_t* r = ap_abstract0_meet_tcons_array(m, d, a, &arr); ap_tcons0_array_clear(&arr); return r; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { bool ok = true; for (auto& c : cs) if (!tcons_may(c, p)) ok = false; if (ok) push_pt(out, p, I); } };
  }
  vector<TEP> texprs(int level) {
    vector<TEP> r; if (n == 0) { r.push_back(tc(Itv(mkq(1)))); return r; }
    TEP x = td(0), y = td(n - 1), z = td(n > 1 ? 1 : 0); auto B = [&](int o, TEP a, TEP b, int rt = 0, int rd = AP_RDIR_RND) { r.push_back(tb(o, a, b, rt, rd)); };
    B(AP_TEXPR_ADD, x, y); B(AP_TEXPR_SUB, y, x); B(AP_TEXPR_MUL, x, y); B(AP_TEXPR_MUL, x, x); B(AP_TEXPR_DIV, x, tc(2)); B(AP_TEXPR_DIV, x, tc(-3)); B(AP_TEXPR_DIV, x, y); B(AP_TEXPR_DIV, tc(2), x);
    r.push_back(tu(AP_TEXPR_SQRT, x)); r.push_back(tu(AP_TEXPR_NEG, y)); B(AP_TEXPR_POW, x, tc(2)); B(AP_TEXPR_POW, y, tc(3)); B(AP_TEXPR_POW, x, tc(0)); B(AP_TEXPR_MOD, x, tc(2)); B(AP_TEXPR_MOD, y, tc(-3)); B(AP_TEXPR_MOD, x, y);
    B(AP_TEXPR_MUL, tc(Itv(EQ(mkq(-1)), EQ(mkq(2)))), x); B(AP_TEXPR_ADD, tb(AP_TEXPR_MUL, tc(Itv(EQ(mkq(0)), EQ(mkq(1)))), y), x); B(AP_TEXPR_MUL, tb(AP_TEXPR_SUB, x, z), tb(AP_TEXPR_ADD, x, y)); B(AP_TEXPR_DIV, x, tc(Itv(EQ(mkq(1)), EQ(mkq(2))))); B(AP_TEXPR_DIV, y, tc(Itv(EQ(mkq(-1)), EQ(mkq(2)))));
    B(AP_TEXPR_SUB, x, tc(mkq(5, 2))); B(AP_TEXPR_ADD, tb(AP_TEXPR_MUL, tc(2), x), tc(1)); r.push_back(tc(Itv(minf(), EQ(mkq(1))))); r.push_back(tc(Itv(minf(), pinf())));
    for (int rd : {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN, AP_RDIR_RND}) {
      B(AP_TEXPR_DIV, x, tc(2), AP_RTYPE_INT, rd); r.push_back(tu(AP_TEXPR_CAST, tb(AP_TEXPR_MUL, y, tc(mkq(2, 3))), AP_RTYPE_INT, rd)); B(AP_TEXPR_DIV, x, y, AP_RTYPE_INT, rd);
      B(AP_TEXPR_ADD, x, tc(mkq(1, 3)), AP_RTYPE_SINGLE, rd); B(AP_TEXPR_DIV, y, tc(3), AP_RTYPE_DOUBLE, rd); }
    B(AP_TEXPR_MUL, x, y, AP_RTYPE_SINGLE, AP_RDIR_RND); B(AP_TEXPR_MUL, x, tc(mkq(1, 10)), AP_RTYPE_EXTENDED, AP_RDIR_NEAREST); r.push_back(tu(AP_TEXPR_CAST, tb(AP_TEXPR_DIV, x, tc(7)), AP_RTYPE_SINGLE, AP_RDIR_DOWN)); r.push_back(tu(AP_TEXPR_SQRT, tb(AP_TEXPR_MUL, x, x), AP_RTYPE_DOUBLE, AP_RDIR_UP)); B(AP_TEXPR_SUB, y, tc(mkq(1, 3)), AP_RTYPE_QUAD, AP_RDIR_ZERO);
    { TEP ci = tu(AP_TEXPR_CAST, y, AP_RTYPE_INT, AP_RDIR_ZERO), cx = tu(AP_TEXPR_CAST, x, AP_RTYPE_INT, AP_RDIR_DOWN); B(AP_TEXPR_MUL, tb(AP_TEXPR_ADD, x, tc(1), AP_RTYPE_INT, AP_RDIR_ZERO), tb(AP_TEXPR_MOD, ci, tc(3), AP_RTYPE_INT, AP_RDIR_ZERO), AP_RTYPE_INT, AP_RDIR_ZERO); B(AP_TEXPR_MOD, ci, tc(2), AP_RTYPE_INT, AP_RDIR_ZERO); B(AP_TEXPR_MOD, cx, ci, AP_RTYPE_INT, AP_RDIR_RND); B(AP_TEXPR_POW, ci, tc(2), AP_RTYPE_INT, AP_RDIR_RND); }
    return r;
  }
  void add_forget(const vector<size_t>& d, bool project, bool core = false) {
    string t; for (auto x : d) t += "x" + std::to_string(x); if (project) t += ",project"; OpP o = mk("forget", t, 1, I, R); o->core = core; if (!project) o->fd = d; o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; int I = this->I;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { vector<ap_dim_t> td(d.begin(), d.end()); return ap_abstract0_forget_array(m, ds, a, td.data(), td.size(), project); };
    o->ref = [=](const Args& x, vector<Poly>& out) { Poly p(*x.A); for (auto k : d) p.unconstrain(PPL::Variable(k)); if (project) for (auto k : d) p.add_constraint(PPL::Variable(k) == 0); if (!p.is_empty()) out.push_back(p); return true; };
    o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; for (auto k : d) G.unconstrain(PPL::Variable(k)); if (project) for (auto k : d) G.add_congruence((PPL::Linear_Expression(PPL::Variable(k)) %= 0) / 0); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (long v : {0L, 3L, -4L, 1L}) { Pt q(p); long u = v; for (auto k : d) { q[k] = project ? 0 : u; u = -u + 1; } push_pt(out, q, I); if (project) break; } };
  }
  // inserted dims: positions (in old indexing, sorted), ai integers and ar reals
  void add_adddim(const vector<size_t>& pos, int ai, int ar, bool project) {
    string t; for (auto x : pos) t += std::to_string(x) + ","; t += "int" + std::to_string(ai) + (project ? ",project" : ""); OpP o = mk("add_dims", t, 1, I + ai, R + ar); o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; int n = this->n, OI = I + ai;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { ap_dimchange_t* c = ap_dimchange_alloc(ai, ar); for (size_t i = 0; i < pos.size(); i++) c->dim[i] = pos[i]; ap_abstract0_t* r = ap_abstract0_add_dimensions(m, ds, a, c, project); ap_dimchange_free(c); return r; };
    vector<long> mp(n + pos.size()); vector<size_t> nw; { size_t k = 0, o2 = 0; vector<long> old2new(n); for (int i = 0; i <= n; i++) { while (k < pos.size() && pos[k] == (size_t)i) { nw.push_back(o2++); k++; } if (i < n) old2new[i] = o2++; } for (int i = 0; i < n; i++) mp[i] = old2new[i]; for (size_t k2 = 0; k2 < nw.size(); k2++) mp[n + k2] = nw[k2]; }
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); if (project) p.add_space_dimensions_and_project(nw.size()); else p.add_space_dimensions_and_embed(nw.size()); out.push_back(remap(p, mp)); return true; };
    o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { PPL::Grid p(*A); p.add_space_dimensions_and_embed(nw.size()); if (project) for (size_t k = n; k < n + nw.size(); k++) p.add_congruence((PPL::Variable(k) %= 0) / 0); /* PPL's own projection is wrong on 0 dimensions */ G = p.is_empty() ? PPL::Grid(n + nw.size(), PPL::EMPTY) : remap(p, mp); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (long v : {0L, 3L, -4L}) { Pt q(n + nw.size()); for (int i = 0; i < n; i++) q[mp[i]] = p[i]; long u = v; for (auto k : nw) { q[k] = project ? 0 : u; u = 2 - u; } push_pt(out, q, OI); if (project) break; } };
  }
  void add_remdim(const vector<size_t>& pos, int ri) {
    int rr = pos.size() - ri; string t; for (auto x : pos) t += "x" + std::to_string(x); OpP o = mk("remove_dims", t, 1, I - ri, R - rr); o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; int n = this->n;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { ap_dimchange_t* c = ap_dimchange_alloc(ri, rr); for (size_t i = 0; i < pos.size(); i++) c->dim[i] = pos[i]; ap_abstract0_t* r = ap_abstract0_remove_dimensions(m, ds, a, c); ap_dimchange_free(c); return r; };
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); PPL::Variables_Set vs; for (auto k : pos) vs.insert(PPL::Variable(k)); p.remove_space_dimensions(vs); out.push_back(p); return true; };
    o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { PPL::Grid p(*A); PPL::Variables_Set vs; for (auto k : pos) vs.insert(PPL::Variable(k)); p.remove_space_dimensions(vs); G = p; return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { Pt q; for (int i = 0; i < n; i++) if (std::find(pos.begin(), pos.end(), (size_t)i) == pos.end()) q.push_back(p[i]); out.push_back(q); } };
  }
  void add_perm(const vector<size_t>& pm) {
    string t; for (auto x : pm) t += std::to_string(x); OpP o = mk("permute", t, 1, I, R); o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; int n = this->n;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { ap_dimperm_t* c = ap_dimperm_alloc(n); for (int i = 0; i < n; i++) c->dim[i] = pm[i]; ap_abstract0_t* r = ap_abstract0_permute_dimensions(m, ds, a, c); ap_dimperm_free(c); return r; };
    vector<long> mp(pm.begin(), pm.end());
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; out.push_back(remap(*x.A, mp)); return true; };
    o->gref = [=](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = A->is_empty() ? *A : remap(*A, mp); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) { Pt q(n); for (int i = 0; i < n; i++) q[pm[i]] = p[i]; out.push_back(q); } };
  }
  void add_expand(size_t d, size_t k) {
    bool isint = (int)d < I; OpP o = mk("expand", "x" + std::to_string(d) + "," + std::to_string(k), 1, I + (isint ? k : 0), R + (isint ? 0 : k)); o->claim = CL_POLY; int n = this->n; size_t at = isint ? I : n; if (k == 0) o->claim |= CL_BOX | CL_OCT | CL_EQ;
    o->claim |= CL_BOX;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { return ap_abstract0_expand(m, ds, a, d, k); };
    vector<long> mp(n + k); for (int i = 0; i < n; i++) mp[i] = (size_t)i >= at ? i + k : i; for (size_t j = 0; j < k; j++) mp[n + j] = at + j;
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); p.add_space_dimensions_and_embed(k); for (size_t j = 0; j < k; j++) { Poly q(*x.A); q.add_space_dimensions_and_embed(k); vector<long> m(n + k); for (size_t i = 0; i < n + k; i++) m[i] = i; m[d] = n + j; m[n + j] = d; p.intersection_assign(remap(q, m)); } out.push_back(remap(p, mp)); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (auto& w : *x.WA) { bool same = true; for (int i = 0; i < n; i++) if ((size_t)i != d && p[i] != w[i]) same = false; if (!same) continue; Pt q(n + k); for (int i = 0; i < n; i++) q[mp[i]] = p[i]; for (size_t j = 0; j < k; j++) q[at + j] = j % 2 ? p[d] : w[d]; out.push_back(q); } };
  }
  void add_fold(const vector<size_t>& d) {
    bool isint = (int)d[0] < I; size_t k = d.size() - 1; string t; for (auto x : d) t += "x" + std::to_string(x); OpP o = mk("fold", t, 1, I - (isint ? k : 0), R - (isint ? 0 : k)); o->claim = CL_POLY | CL_BOX | CL_OCT | CL_EQ; int n = this->n;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { vector<ap_dim_t> td(d.begin(), d.end()); return ap_abstract0_fold(m, ds, a, td.data(), td.size()); };
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; for (auto s : d) { vector<long> m(n); size_t o2 = 0; for (int i = 0; i < n; i++) { bool in = std::find(d.begin() + 1, d.end(), (size_t)i) != d.end(); if (in) m[i] = -1; else m[i] = o2++; } if (s != d[0]) { m[s] = m[d[0]]; m[d[0]] = -1; } out.push_back(remap(*x.A, m)); } return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (auto s : d) { Pt q; for (int i = 0; i < n; i++) { bool in = std::find(d.begin() + 1, d.end(), (size_t)i) != d.end(); if (!in) q.push_back((size_t)i == d[0] ? p[s] : p[i]); } out.push_back(q); } };
  }
  void add_dimchange2(const vector<size_t>& pos, int ai, const vector<size_t>& rem, int ri, bool project) {   // add then remove (rem in the indexing after adding)
    int ar = pos.size() - ai, rr = rem.size() - ri; string t; for (auto x : pos) t += std::to_string(x) + ","; t += "int" + std::to_string(ai) + (project ? ",project" : "") + ";remove"; for (auto x : rem) t += std::to_string(x) + ","; OpP o = mk("dimchange2", t, 1, I + ai - ri, R + ar - rr); o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; int n = this->n, OI = o->OI;
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { ap_dimchange_t *c = NULL, *r = NULL; if (pos.size()) { c = ap_dimchange_alloc(ai, ar); for (size_t i = 0; i < pos.size(); i++) c->dim[i] = pos[i]; } if (rem.size()) { r = ap_dimchange_alloc(ri, rr); for (size_t i = 0; i < rem.size(); i++) r->dim[i] = rem[i]; } ap_dimchange2_t* d2 = ap_dimchange2_alloc(c, r); ap_abstract0_t* res = ap_abstract0_apply_dimchange2(m, ds, a, d2, project); ap_dimchange2_free(d2); return res; };
    vector<long> mp(n + pos.size()); vector<size_t> nw; { size_t k = 0, o2 = 0; vector<long> old2new(n); for (int i = 0; i <= n; i++) { while (k < pos.size() && pos[k] == (size_t)i) { nw.push_back(o2++); k++; } if (i < n) old2new[i] = o2++; } for (int i = 0; i < n; i++) mp[i] = old2new[i]; for (size_t k2 = 0; k2 < nw.size(); k2++) mp[n + k2] = nw[k2]; }
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); if (project) p.add_space_dimensions_and_project(nw.size()); else p.add_space_dimensions_and_embed(nw.size()); p = remap(p, mp); PPL::Variables_Set vs; for (auto k : rem) vs.insert(PPL::Variable(k)); p.remove_space_dimensions(vs); out.push_back(p); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (long v : {0L, 3L}) { Pt q(n + nw.size()); for (int i = 0; i < n; i++) q[mp[i]] = p[i]; for (auto k : nw) q[k] = project ? 0 : v; Pt z; for (size_t i = 0; i < q.size(); i++) if (std::find(rem.begin(), rem.end(), i) == rem.end()) z.push_back(q[i]); push_pt(out, z, OI); } };
  }
  struct Gen { int t; vector<Q> v; };
  void add_rays(const vector<Gen>& g) {
    string t; for (auto& x : g) { t += x.t == AP_GEN_RAY ? "ray" : "line"; t += pts(x.v); } OpP o = mk("add_rays", t, 1, I, R); o->claim = CL_POLY; int n = this->n, I = this->I; int sp = rot(cyc, 2);
    o->run = [=](ap_manager_t* m, bool ds, ap_abstract0_t* a, ap_abstract0_t*) { ap_generator0_array_t ar = ap_generator0_array_make(g.size()); for (size_t i = 0; i < g.size(); i++) ar.p[i] = ap_generator0_make((ap_gentyp_t)g[i].t, mk_linexpr(lin(g[i].v, Q(0)), sp)); ap_abstract0_t* r = ap_abstract0_add_ray_array(m, ds, a, &ar); ap_generator0_array_clear(&ar); return r; };
    o->ref = [=](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); for (auto& k : g) { PPL::Linear_Expression e = ppl_lin(k.v, Q(0), n); p.add_generator(k.t == AP_GEN_RAY ? PPL::ray(e) : PPL::line(e)); } out.push_back(p); return true; };
    o->wit = [=](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) for (long v : {0L, 1L, 6L}) { Pt q(p); for (auto& k : g) for (int i = 0; i < n; i++) q[i] += k.v[i] * v; push_pt(out, q, I); } };
  }
  void add_binary() {
    int n = this->n, I = this->I;
    auto Wjoin = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; out.insert(out.end(), x.WB->begin(), x.WB->end()); };
    auto Rjoin = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); if (!x.B->is_empty()) out.push_back(*x.B); return true; };
    auto Wmeet = [](const WArgs& x, vector<Pt>& out) { for (auto& p : *x.WA) if (x.inB(p)) out.push_back(p); for (auto& p : *x.WB) if (x.inA(p)) out.push_back(p); };
    auto Rmeet = [](const Args& x, vector<Poly>& out) { Poly p(*x.A); p.intersection_assign(*x.B); if (!p.is_empty()) out.push_back(p); return true; };
    int ALL = CL_BOX | CL_OCT | CL_POLY | CL_EQ;
    OpP o = mk("join", "", 2, I, R); o->core = true; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { return ap_abstract0_join(m, d, a, b); }; o->ref = Rjoin; o->wit = Wjoin;
    o->gref = [](const PPL::Grid* A, const PPL::Grid* B, PPL::Grid& G) { G = *A; G.upper_bound_assign(*B); return true; };
    o = mk("meet", "", 2, I, R); o->core = true; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { return ap_abstract0_meet(m, d, a, b); }; o->ref = Rmeet; o->wit = Wmeet;
    o->gref = [](const PPL::Grid* A, const PPL::Grid* B, PPL::Grid& G) { G = *A; G.intersection_assign(*B); return true; };
    o = mk("widening", "", 2, I, R); o->core = true; o->destr = false; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* j = ap_abstract0_join(m, false, a, b); ap_abstract0_t* r = ap_abstract0_widening(m, a, j); ap_abstract0_free(m, j); return r; };
    o->ref = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); if (!x.B->is_empty()) out.push_back(*x.B); return false; }; o->wit = Wjoin;
    o = mk("join_array", "a,b,a", 2, I, R); o->destr = false; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* t[3] = {a, b, a}; return ap_abstract0_join_array(m, t, 3); }; o->ref = Rjoin; o->wit = Wjoin;
    o = mk("join_array", "b,a", 2, I, R); o->destr = false; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* t[2] = {b, a}; return ap_abstract0_join_array(m, t, 2); }; o->ref = Rjoin; o->wit = Wjoin;
    o = mk("meet_array", "b,a,b", 2, I, R); o->destr = false; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* t[3] = {b, a, b}; return ap_abstract0_meet_array(m, t, 3); }; o->ref = Rmeet; o->wit = Wmeet;
    o = mk("meet_array", "a", 1, I, R); o->destr = false; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* t[1] = {a}; return ap_abstract0_meet_array(m, t, 1); }; o->ref = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); return true; }; o->wit = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; };
    o = mk("join_array", "a", 1, I, R); o->destr = false; o->claim = ALL; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t* b) { ap_abstract0_t* t[1] = {a}; return ap_abstract0_join_array(m, t, 1); }; o->ref = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); return true; }; o->wit = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; };
  }
  void add_closure() {
    OpP o = mk("closure", "", 1, I, R); o->core = true; o->claim = CL_BOX | CL_OCT | CL_POLY | CL_EQ; o->run = [](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { return ap_abstract0_closure(m, d, a); };
    o->ref = [](const Args& x, vector<Poly>& out) { if (x.A->is_empty()) return true; Poly p(*x.A); p.topological_closure_assign(); out.push_back(p); return true; }; o->wit = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; };
    o->gref = [](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; return true; };
  }
  // representation changes: semantics is the identity
  void add_repr() {
    auto R1 = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); return true; }; auto W1 = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; };
    auto G1 = [](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; return true; };
    int ALL = CL_BOX | CL_OCT | CL_POLY | CL_EQ;
    struct { const char* nm; std::function<void(ap_manager_t*, ap_abstract0_t*)> f; } L[] = {
      {"canonicalize", [](ap_manager_t* m, ap_abstract0_t* a) { ap_abstract0_canonicalize(m, a); }}, {"minimize", [](ap_manager_t* m, ap_abstract0_t* a) { ap_abstract0_minimize(m, a); }},
      {"query", [](ap_manager_t* m, ap_abstract0_t* a) { ap_generator0_array_t g = ap_abstract0_to_generator_array(m, a); ap_generator0_array_clear(&g); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); ap_lincons0_array_clear(&l); ap_abstract0_is_bottom(m, a); ap_abstract0_is_top(m, a); ap_dimension_t d = ap_abstract0_dimension(m, a); ap_interval_t** b = ap_abstract0_to_box(m, a); if (b) ap_interval_array_free(b, d.intdim + d.realdim); }},
      {"is_bottom", [](ap_manager_t* m, ap_abstract0_t* a) { ap_abstract0_is_bottom(m, a); }}, {"hash", [](ap_manager_t* m, ap_abstract0_t* a) { ap_abstract0_hash(m, a); }},
      {"print", [](ap_manager_t* m, ap_abstract0_t* a) { char* b; size_t s; FILE* f = open_memstream(&b, &s); ap_abstract0_fprint(f, m, a, NULL); fclose(f); free(b); }},
      {"copy", [](ap_manager_t* m, ap_abstract0_t* a) { ap_abstract0_t* c = ap_abstract0_copy(m, a); ap_abstract0_free(m, c); }} };
    for (auto& l : L) { auto f = l.f; OpP o = mk("repr", l.nm, 1, I, R); o->core = string(l.nm) == "canonicalize" || string(l.nm) == "query" || string(l.nm) == "minimize"; o->claim = ALL; o->ref = R1; o->wit = W1; o->gref = G1; o->destr = true;
      o->run = [f](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { ap_abstract0_t* r = d ? a : ap_abstract0_copy(m, a); f(m, r); return r; }; }
    if (APPROX) for (int al : {1, 2, 3, 10, 11, 12, -1, 0, 4}) { OpP o = mk("approximate", std::to_string(al), 1, I, R); o->core = al > 0; o->ref = al >= 0 ? std::function<bool(const Args&, vector<Poly>&)>([](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); return false; }) : nullptr; o->wit = W1; if (al >= 0) o->gref = G1; o->destr = true;
      o->run = [al](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { ap_abstract0_t* r = d ? a : ap_abstract0_copy(m, a); ap_abstract0_approximate(m, r, al); return r; }; }
  }
  // conversions and serialisation: semantics is the identity
  void add_conv() {
    auto R1 = [](const Args& x, vector<Poly>& out) { if (!x.A->is_empty()) out.push_back(*x.A); return true; }; auto W1 = [](const WArgs& x, vector<Pt>& out) { out = *x.WA; };
    auto G1 = [](const PPL::Grid* A, const PPL::Grid*, PPL::Grid& G) { G = *A; return true; };
    struct { const char* grp; const char* nm; int claim; std::function<ap_abstract0_t*(ap_manager_t*, ap_abstract0_t*)> f; } L[] = {
      {"convert", "of_lincons(to_lincons)", CL_BOX | CL_OCT | CL_POLY | CL_EQ, [](ap_manager_t* m, ap_abstract0_t* a) { ap_dimension_t d = ap_abstract0_dimension(m, a); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); ap_abstract0_t* r = ap_abstract0_of_lincons_array(m, d.intdim, d.realdim, &l); ap_lincons0_array_clear(&l); return r; }},
      {"convert", "of_tcons(to_tcons)", 0, [](ap_manager_t* m, ap_abstract0_t* a) { ap_dimension_t d = ap_abstract0_dimension(m, a); ap_tcons0_array_t l = ap_abstract0_to_tcons_array(m, a); ap_abstract0_t* r = ap_abstract0_of_tcons_array(m, d.intdim, d.realdim, &l); ap_tcons0_array_clear(&l); return r; }},
      {"convert", "meet_lincons(to_lincons)", CL_BOX | CL_OCT | CL_POLY | CL_EQ, [](ap_manager_t* m, ap_abstract0_t* a) { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); ap_abstract0_t* r = ap_abstract0_meet_lincons_array(m, false, a, &l); ap_lincons0_array_clear(&l); return r; }},
      {"convert", "add_rays(to_generators)", 0, [](ap_manager_t* m, ap_abstract0_t* a) { ap_generator0_array_t g = ap_abstract0_to_generator_array(m, a); size_t k = 0; for (size_t i = 0; i < g.size; i++) if (g.p[i].gentyp == AP_GEN_RAY || g.p[i].gentyp == AP_GEN_LINE) { ap_generator0_t t = g.p[k]; g.p[k] = g.p[i]; g.p[i] = t; k++; } ap_generator0_array_t h = g; h.size = k; ap_abstract0_t* r = ap_abstract0_add_ray_array(m, false, a, &h); ap_generator0_array_clear(&g); return r; }},
      {"serialize", "raw", CL_BOX | CL_OCT | CL_POLY | CL_EQ, [](ap_manager_t* m, ap_abstract0_t* a) -> ap_abstract0_t* { ap_membuf_t b = ap_abstract0_serialize_raw(m, a); if (!b.ptr) return ap_abstract0_copy(m, a); vector<char> v((char*)b.ptr, (char*)b.ptr + b.size); free(b.ptr); v.resize(v.size() + 16, 0x5a); size_t sz = 0; ap_abstract0_t* r = ap_abstract0_deserialize_raw(m, v.data(), &sz); if (sz != v.size() - 16) { fprintf(stderr, "deserialize consumed %zu of %zu bytes\n", sz, v.size() - 16); if (r) ap_abstract0_free(m, r); return NULL; } return r; }},
      {"serialize", "raw twice", CL_BOX | CL_OCT | CL_POLY | CL_EQ, [](ap_manager_t* m, ap_abstract0_t* a) -> ap_abstract0_t* { ap_membuf_t b = ap_abstract0_serialize_raw(m, a); if (!b.ptr) return ap_abstract0_copy(m, a); size_t sz = 0; ap_abstract0_t* r = ap_abstract0_deserialize_raw(m, b.ptr, &sz); ap_membuf_t c = ap_abstract0_serialize_raw(m, r); bool same = c.ptr && c.size == b.size; free(b.ptr); free(c.ptr); if (!same) { ap_abstract0_free(m, r); return NULL; } return r; }} };
    for (auto& l : L) { auto f = l.f; OpP o = mk(l.grp, l.nm, 1, I, R); o->claim = l.claim; o->ref = R1; o->wit = W1; o->gref = G1; o->destr = false; o->identity = true; o->run = [f](ap_manager_t* m, bool d, ap_abstract0_t* a, ap_abstract0_t*) { return f(m, a); }; }
  }
  void build() {
    // binary and representation operations first: simplest first
    add_repr(); add_closure(); add_binary(); add_conv();
    vector<Lin> F = forms(tier > 0 ? 2 : 1), F0 = forms(0), IF = iforms();
    auto C = [&](const Lin& l, int t, Q m = Q(0)) { Cons c; c.e = l; c.t = t; c.mod = m; return c; };
    auto L1 = [&](int d, Q a, Q k) { Lin l = zero(); l.c[d] = Itv(a); l.k = Itv(k); return l; };
    auto L2 = [&](int d, Q a, int e, Q b, Q k) { Lin l = zero(); l.c[d] = Itv(a); l.c[e] = Itv(b); l.k = Itv(k); return l; };
    // core meets
    for (int d = 0; d < n; d++) { add_meet({C(L1(d, 1, 0), AP_CONS_SUPEQ)}, true); add_meet({C(L1(d, -1, 1), AP_CONS_SUPEQ)}, true); add_meet({C(L1(d, 1, mkq(-1)), AP_CONS_EQ)}, d == 0); add_meet({C(L1(d, 1, 1), AP_CONS_SUP)}, d == n - 1); }
    for (int d = 0; d + 1 < n; d++) { add_meet({C(L2(d, 1, d + 1, -1, 0), AP_CONS_SUPEQ)}, true); add_meet({C(L2(d, -1, d + 1, -1, 2), AP_CONS_SUPEQ)}, true); add_meet({C(L2(d, 1, d + 1, -1, 0), AP_CONS_EQ)}, d == 0); add_meet({C(L2(d, 1, d + 1, 2, -2), AP_CONS_EQ)}, d == 0); add_meet({C(L2(d, 2, d + 1, 1, 1), AP_CONS_SUP)}, d == 0); add_meet({C(L2(d, 2, d + 1, -1, 1), AP_CONS_SUPEQ)}, d == 0); }
    if (n) { for (int d = 0; d < n; d++) { add_asg(false, {(size_t)d}, {L1(d, 1, 1)}, false, d == 0); add_asg(false, {(size_t)d}, {L1((d + 1) % n, -1, mkq(1))}, false, d == 0); add_asg(true, {(size_t)d}, {L1(d, 2, 1)}, false, d == n - 1); add_forget({(size_t)d}, false, true); add_forget({(size_t)d}, true, d == 0); } if (n > 1) { add_asg(false, {0}, {L2(0, 1, n - 1, 1, 0)}, false, true); add_asg(false, {(size_t)n - 1}, {L1(0, 1, 0)}, false, true); } }
    // full alphabet
    for (auto& l : F) for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP}) add_meet({C(l, t)});
    size_t k = 0; for (auto& l : F) { k++; if (n <= 2 || k % 3 == 0) add_meet({C(l, AP_CONS_DISEQ)}); if (n <= 1 || k % 2 == 0) { add_meet({C(l, AP_CONS_EQMOD, mkq(2))}); if (k % 4 == 0) { add_meet({C(l, AP_CONS_EQMOD, mkq(3, 2))}); add_meet({C(l, AP_CONS_EQMOD, mkq(0))}); } } }
    k = 0; for (auto& l : IF) for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP, AP_CONS_DISEQ}) { k++; if (n < 3 || k % 2) add_meet({C(l, t)}); }
    add_meet({}); 
    for (int d = 0; d < n; d++) { int e = (d + 1) % n;
      add_meet({C(L1(d, 1, 1), AP_CONS_SUPEQ), C(L1(d, -1, 1), AP_CONS_SUPEQ)}); add_meet({C(L1(d, 1, -2), AP_CONS_SUPEQ), C(L1(d, -1, 1), AP_CONS_SUPEQ)}); add_meet({C(L1(d, 1, 0), AP_CONS_SUP), C(L1(d, -1, 1), AP_CONS_SUP)}); add_meet({C(L1(d, 2, -1), AP_CONS_EQ), C(L1(d, 3, -1), AP_CONS_SUPEQ)});
      if (e != d && d < (int)I && e >= (int)I) add_meet({C(L2(d, 2, e, -1, 0), AP_CONS_EQ), C(L1(d, 1, 0), AP_CONS_SUPEQ)}, d == 0);
      if (e != d) { add_meet({C(L2(d, 1, e, -1, 0), AP_CONS_SUPEQ), C(L2(d, -1, e, 1, 0), AP_CONS_SUPEQ), C(L1(d, 1, 0), AP_CONS_SUPEQ)}); add_meet({C(L2(d, 2, e, -1, 0), AP_CONS_EQ), C(L2(d, 1, e, 1, -3), AP_CONS_EQ)}); add_meet({C(L2(d, 1, e, 1, -1), AP_CONS_SUP), C(L2(d, 1, e, -1, -1), AP_CONS_SUPEQ), C(L1(d, -1, 1), AP_CONS_SUPEQ)}); add_meet({C(L2(d, 1, e, 1, 0), AP_CONS_EQMOD, mkq(2)), C(L2(d, 1, e, -1, 0), AP_CONS_DISEQ)}); } }
    // assignments, substitutions
    for (int d = 0; d < n; d++) { k = 0; for (auto& l : F) { k++; if (n >= 3 && nvars(l) > 2 && k % 2) continue; add_asg(false, {(size_t)d}, {l}, false); add_asg(true, {(size_t)d}, {l}, false); }
      k = 0; for (auto& l : IF) { k++; if (n >= 3 && k % 3 != (size_t)d % 3) continue; add_asg(false, {(size_t)d}, {l}, false); add_asg(true, {(size_t)d}, {l}, false); }
      for (size_t j = d; j < F0.size(); j += n <= 1 ? 1 : n == 2 ? 3 : 11) { add_asg(false, {(size_t)d}, {F0[j]}, true); add_asg(true, {(size_t)d}, {F0[j]}, true); } }
    for (int d = 0; d < n; d++) for (int e = 0; e < n; e++) if (d != e) {
      size_t D = d, E = e; Lin iv = zero(); iv.c[d] = Itv(mkq(1)); iv.k = Itv(EQ(mkq(0)), EQ(mkq(2)));
      vector<std::pair<Lin, Lin>> ps = {{L1(e, 1, 0), L1(d, 1, 0)}, {L2(d, 1, e, 1, 0), L1(d, 1, 0)}, {L2(d, 1, e, -1, 1), L2(d, 1, e, 1, 0)}, {L1(d, 1, 1), L1(d, 2, 0)}, {zero(), L1(d, 1, 0)}, {L1(e, 1, 0), iv}, {L1(e, -1, 1), zero()}};
      for (auto& p : ps) { add_asg(false, {D, E}, {p.first, p.second}, false); add_asg(true, {D, E}, {p.first, p.second}, false); }
      add_asg(false, {D, E}, {ps[0].first, ps[1].second}, true); add_asg(true, {D, E}, {ps[1].first, ps[2].second}, true); }
    if (n >= 3) { add_asg(false, {0, 1, 2}, {L1(1, 1, 0), L1(2, 1, 0), L1(0, 1, 0)}, false); add_asg(true, {0, 1, 2}, {L1(1, 1, 0), L1(2, 1, 0), L1(0, 1, 0)}, false); add_asg(false, {2, 0, 1}, {L2(0, 1, 1, 1, 0), L1(0, 1, 1), L2(2, 1, 0, -1, 0)}, false); add_asg(true, {2, 0, 1}, {L2(0, 1, 1, 1, 0), L1(0, 1, 1), L2(2, 1, 0, -1, 0)}, false); }
    // tree expressions
    vector<TEP> T = texprs(tier);
    k = 0; for (auto& e : T) { k++; if (n) { add_tasg(false, {k % n}, {e}, false); add_tasg(true, {(k + 1) % n}, {e}, false); if (n > 1 && k % 3 == 0) add_tasg(false, {(k + 1) % n}, {e}, false); if (k % 4 == 0) { add_tasg(false, {k % n}, {e}, true); add_tasg(true, {k % n}, {e}, true); } if (n > 1 && k % 5 == 0) { add_tasg(false, {0, (size_t)n - 1}, {e, T[k % T.size()]}, false); add_tasg(true, {0, (size_t)n - 1}, {e, T[k % T.size()]}, false); } }
      for (int t : {AP_CONS_SUPEQ, AP_CONS_EQ, AP_CONS_SUP, AP_CONS_DISEQ, AP_CONS_EQMOD}) { TCons c; c.e = e; c.t = t; c.mod = t == AP_CONS_EQMOD ? Q(2) : Q(0); if (t >= AP_CONS_SUP && n >= 2 && (k + t) % 3) continue; add_tmeet({c}); TCons s; s.e = tb(AP_TEXPR_SUB, tc(1), e); s.t = t; s.mod = c.mod; if (t <= AP_CONS_SUPEQ) add_tmeet({s}); if (k % 4 == 0 && t == AP_CONS_SUPEQ) add_tmeet({c, s}); } }
    add_tmeet({});
    // forget
    for (int m = 0; m < (1 << n); m++) if (__builtin_popcount(m) != 1) { vector<size_t> d; for (int i = 0; i < n; i++) if (m >> i & 1) d.push_back(i); add_forget(d, false); add_forget(d, true); if (d.size() >= 2) { std::reverse(d.begin(), d.end()); add_forget(d, false); } }
    // dimensions
    for (int ai = 0; ai <= 2; ai++) for (int ar = 0; ai + ar <= 2; ar++) { if (n + ai + ar > 4) continue; 
      std::function<void(vector<size_t>)> rec = [&](vector<size_t> p) { if ((int)p.size() == ai + ar) { add_adddim(p, ai, ar, false); add_adddim(p, ai, ar, true); return; } bool isint = (int)p.size() < ai; size_t lo = p.empty() ? (isint ? 0 : I) : std::max(p.back(), (size_t)(isint ? 0 : I)), hi = isint ? I : n; for (size_t q = lo; q <= hi; q++) { vector<size_t> r(p); r.push_back(q); rec(r); } };
      rec({}); }
    for (int m = 0; m < (1 << n); m++) { vector<size_t> d; int ri = 0; for (int i = 0; i < n; i++) if (m >> i & 1) { d.push_back(i); if (i < I) ri++; } add_remdim(d, ri); }
    { vector<size_t> p(n); for (int i = 0; i < n; i++) p[i] = i; do { bool ok = true; for (int i = 0; i < n; i++) if ((i < I) != ((int)p[i] < I)) ok = false; if (ok) add_perm(p); } while (std::next_permutation(p.begin(), p.end())); }
    for (int d = 0; d < n; d++) for (int j = 0; j <= 2; j++) if (n + j <= 5) add_expand(d, j);
    { std::function<void(vector<size_t>)> rec = [&](vector<size_t> p) { if (!p.empty()) add_fold(p); for (size_t i = 0; i < (size_t)n; i++) { if (!p.empty() && (i < (size_t)I) != (p[0] < (size_t)I)) continue; if (std::find(p.begin(), p.end(), i) != p.end()) continue; if (!p.empty() && i < p.back()) continue; vector<size_t> q(p); q.push_back(i); rec(q); } }; rec({}); }
    for (int ai = 0; ai <= 1; ai++) { size_t ps = ai ? I : n; for (size_t q = ai ? 0 : I; q <= ps; q++) for (int pj = 0; pj < 2; pj++) for (int r = 0; r <= n; r++) { if ((size_t)r == q) continue; int ri = r < I + ai ? 1 : 0; add_dimchange2({q}, ai, {(size_t)r}, ri, pj); } add_dimchange2({ai ? (size_t)0 : (size_t)I}, ai, {}, 0, true); }
    if (n) { add_dimchange2({}, 0, {0}, I > 0 ? 1 : 0, false); }
    add_dimchange2({}, 0, {}, 0, false);
    // rays
    { auto V = [&](vector<long> c) { vector<Q> v(n, Q(0)); for (int i = 0; i < n && i < (int)c.size(); i++) v[i] = c[i]; return v; };
      add_rays({}); if (n) { add_rays({{AP_GEN_RAY, V({1})}}); add_rays({{AP_GEN_RAY, V({-2})}}); add_rays({{AP_GEN_LINE, V({1})}}); }
      if (n > 1) { add_rays({{AP_GEN_RAY, V({1, 1})}}); add_rays({{AP_GEN_RAY, V({0, 1})}, {AP_GEN_RAY, V({2, -1})}}); add_rays({{AP_GEN_LINE, V({1, -1})}}); add_rays({{AP_GEN_RAY, V({-1, 0})}, {AP_GEN_LINE, V({1, 2})}}); } if (n > 2) { add_rays({{AP_GEN_RAY, V({1, 0, -1})}, {AP_GEN_RAY, V({0, 1, 1})}, {AP_GEN_LINE, V({1, 1, 1})}}); } }
  }
};

// ---- initial values ----
struct Init { string txt; int I, R; std::function<ap_abstract0_t*(ap_manager_t*)> run; Poly P; Init() : P(0) {} };
static inline vector<Init> initials(int I, int R) {
  int n = I + R; vector<Init> v;
  { Init i; i.I = I; i.R = R; i.txt = "top"; i.run = [=](ap_manager_t* m) { return ap_abstract0_top(m, I, R); }; i.P = universe(n); v.push_back(i); }
  { Init i; i.I = I; i.R = R; i.txt = "bottom"; i.run = [=](ap_manager_t* m) { return ap_abstract0_bottom(m, I, R); }; i.P = emptyp(n); v.push_back(i); }
  auto box = [&](const vector<Itv>& b, int rep) { Init i; i.I = I; i.R = R; i.txt = "box["; for (auto& x : b) i.txt += x.str(); i.txt += string("]") + "qdm"[rep];
    i.run = [=](ap_manager_t* m) { ap_interval_t** t = (ap_interval_t**)malloc(sizeof(void*) * (n + 1)); for (int k = 0; k < n; k++) t[k] = mk_interval(b[k], rep); ap_abstract0_t* a = ap_abstract0_of_box(m, I, R, t); for (int k = 0; k < n; k++) ap_interval_free(t[k]); free(t); return a; };
    i.P = universe(n); bool em = false; for (int k = 0; k < n; k++) { if (b[k].empty()) { em = true; continue; } vector<Q> c(n, Q(0)); c[k] = 1; if (!b[k].lo.inf) i.P.add_constraint(ppl_lin(c, -b[k].lo.v, n) >= 0); if (!b[k].hi.inf) i.P.add_constraint(ppl_lin(c, -b[k].hi.v, n) <= 0); } if (em) i.P = emptyp(n); v.push_back(i); };
  if (n) {
    vector<Itv> A = {Itv(EQ(mkq(0)), EQ(mkq(1))), Itv(EQ(mkq(-2)), EQ(mkq(2))), Itv(EQ(mkq(1)), EQ(mkq(3))), Itv(EQ(mkq(-1)), EQ(mkq(0))), Itv(mkq(1)), Itv(EQ(mkq(1)), pinf()), Itv(minf(), EQ(mkq(-1))), Itv(minf(), pinf()), Itv(EQ(mkq(1, 3)), EQ(mkq(5, 2))), Itv(mkq(-2))};
    auto pick = [&](std::initializer_list<int> ix, int rep) { vector<Itv> b; auto it = ix.begin(); for (int k = 0; k < n; k++) { b.push_back(A[*it]); if (++it == ix.end()) it = ix.begin(); } box(b, rep); };
    if (n >= 4) { pick({0, 3, 1, 2, 8}, 0); pick({4, 9, 8, 2, 5}, 1); pick({3, 0, 4, 6, 9}, 2); pick({8, 4, 9, 5, 0}, 0); pick({2, 5, 0, 9, 3}, 1); pick({7, 8, 6, 0, 4}, 0); }
    else { pick({0}, 0); pick({4, 1}, 1); pick({1, 2, 5}, 2); pick({5, 7, 3}, 0); pick({2, 6, 0}, 1); pick({8, 3, 9}, 0); pick({6, 5, 7}, 2); pick({9, 4, 8}, 0); }
    { vector<Itv> b(n, A[0]); b[n - 1] = Itv(EQ(mkq(2)), EQ(mkq(1))); box(b, 0); }
  } else { box({}, 0); }
  return v;
}
#endif
