// Widening: upper bound, thresholds, and stabilisation of every chain (C12).
#include "engine.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
static Dom D; static ap_manager_t* man; static int NI, NR, WALG; typedef ap_abstract0_t A0;
static bool incl(const View& a, const View& b) { if (D.kind == K_GRID) return b.G.contains(a.G); if (D.kind == K_TRACK) { for (auto& w : witnesses(a)) if (!b.has(w)) return false; return true; } return b.P.contains(a.P); }
static bool empty(const View& a) { return D.kind == K_GRID ? a.G.is_empty() : a.P.is_empty(); }
static string txt(const View& v) { if (D.kind == K_GRID) { using PPL::IO_Operators::operator<<; std::ostringstream o; o << v.G.minimized_congruences(); return o.str(); } return polys(v.P) + (v.hasmod ? " " + v.txt : ""); }
static Cons mk(vector<long> a, Q k, int t, Q mod = 0) { Cons c; c.t = t; c.mod = mod; for (auto x : a) c.e.c.push_back(Itv(Q(x))); c.e.k = Itv(k); return c; }
static vector<long> U(size_t n, long i, long a, long j = -1, long b = 0) { vector<long> v(n, 0); v[i] = a; if (j >= 0) v[j] = b; return v; }
struct OwnA { A0* a; explicit OwnA(A0* a) : a(a) {} ~OwnA() { ap_abstract0_free(man, a); } OwnA(const OwnA&) = delete; };
static A0* of(const vector<Cons>& v) { ap_lincons0_array_t a = mk_lincons_array(v, true); A0* r = ap_abstract0_of_lincons_array(man, NI, NR, &a); ap_lincons0_array_clear(&a); return r; }
static A0* cp(A0* a) { return ap_abstract0_copy(man, a); }
// start values: each by name
struct Start { string name; vector<Cons> c; bool bot; };
static vector<Start> inits(size_t n) { vector<Start> v; bool gr = D.kind == K_GRID || D.kind == K_TRACK; int E = AP_CONS_EQ, GE = AP_CONS_SUPEQ;
  v.push_back({"bottom", {}, true}); { vector<Cons> c; for (size_t i = 0; i < n; i++) c.push_back(mk(U(n, i, 1), Q(-(long)i), E)); v.push_back({"point", c, false}); }
  { vector<Cons> c; for (size_t i = 0; i < n; i++) { c.push_back(mk(U(n, i, 1), 0, GE)); c.push_back(mk(U(n, i, -1), Q(1 + (long)i), GE)); } v.push_back({"box", c, false}); }
  v.push_back({"half", {mk(U(n, 0, 1), -1, GE)}, false});
  { vector<Cons> c; for (size_t i = 0; i < n; i++) { c.push_back(mk(U(n, i, 2), -1, GE)); c.push_back(mk(U(n, i, -3), 4, GE)); } v.push_back({"frac", c, false}); }
  if (n >= 2) { v.push_back({"diag", {mk(U(n, 0, 1, 1, -1), 0, E), mk(U(n, 0, 1), 0, GE), mk(U(n, 0, -1), 2, GE)}, false}); v.push_back({"strip", {mk(U(n, 0, 1, 1, -1), 1, GE), mk(U(n, 0, -1, 1, 1), 2, GE), mk(U(n, 1, 1), 0, GE)}, false});
    v.push_back({"tri", {mk(U(n, 0, 1), 0, GE), mk(U(n, 1, 1), 0, GE), mk(U(n, 0, -1, 1, -2), 4, GE)}, false}); v.push_back({"para", {mk(U(n, 0, 2, 1, -1), 0, GE), mk(U(n, 0, -2, 1, 1), 3, GE), mk(U(n, 1, 1), 1, GE), mk(U(n, 1, -1), 3, GE)}, false}); v.push_back({"line", {mk(U(n, 0, 1, 1, -2), 1, E)}, false});
    v.push_back({"trunc", {mk(U(n, 0, 1), 0, GE), mk(U(n, 1, 1), 0, GE), mk(U(n, 0, -1), 3, GE), mk(U(n, 0, -1, 1, -1), 4, GE), mk(U(n, 0, 1, 1, -1), 2, GE)}, false}); }
  if (D.strict) v.push_back({"open", {mk(U(n, 0, 1), 0, AP_CONS_SUP), mk(U(n, 0, -1), 2, AP_CONS_SUP)}, false});
  if (gr) { v.push_back({"even", {mk(U(n, 0, 1), 0, AP_CONS_EQMOD, 4)}, false}); if (n > 1) v.push_back({"mod", {mk(U(n, 0, 1, 1, 1), 1, AP_CONS_EQMOD, 6), mk(U(n, 1, 1), 0, AP_CONS_EQMOD, 2)}, false}); }
  return v; }
static A0* mkinit(const Start& i) { return i.bot ? ap_abstract0_bottom(man, NI, NR) : of(i.c); }
// steps of a loop body
struct Step { string name; vector<ap_dim_t> d; vector<Lin> e; vector<Cons> guard; };
static Lin L(vector<Q> c, Q k, Q w = 0) { Lin l; for (auto& x : c) l.c.push_back(Itv(x)); l.k = w == 0 ? Itv(k) : Itv(k, Q(k + w)); return l; }
static vector<Step> steps(size_t n) { vector<Step> v; auto id = [&](size_t i, Q a) { vector<Q> c(n, Q(0)); c[i] = a; return c; };
  v.push_back({"x0+=1", {0}, {L(id(0, 1), 1)}, {}}); v.push_back({"x0-=2", {0}, {L(id(0, 1), -2)}, {}}); v.push_back({"x0*=2", {0}, {L(id(0, 2), 0)}, {}}); v.push_back({"x0*=-3/2", {0}, {L(id(0, mkq(-3, 2)), 0)}, {}}); v.push_back({"x0/=2", {0}, {L(id(0, mkq(1, 2)), 0)}, {}}); v.push_back({"x0+=[0,1]", {0}, {L(id(0, 1), 0, 1)}, {}});
  v.push_back({"x0<=5:x0+=1", {0}, {L(id(0, 1), 1)}, {mk(U(n, 0, -1), 5, AP_CONS_SUPEQ)}});
  if (n >= 2) { auto id2 = [&](size_t i, Q a, size_t j, Q b) { vector<Q> c(n, Q(0)); c[i] = a; c[j] = b; return c; }; v.push_back({"x1+=1", {1}, {L(id(1, 1), 1)}, {}}); v.push_back({"x1+=x0", {1}, {L(id2(1, 1, 0, 1), 0)}, {}}); v.push_back({"rot", {0, 1}, {L(id(1, -1), 0), L(id(0, 1), 1)}, {}}); v.push_back({"both+=1", {0, 1}, {L(id(0, 1), 1), L(id(1, 1), 1)}, {}}); v.push_back({"x0+=1,x1+=2", {0, 1}, {L(id(0, 1), 1), L(id(1, 1), 2)}, {}});
    v.push_back({"swap+", {0, 1}, {L(id(1, 1), 1), L(id(0, 1), 0)}, {}}); v.push_back({"x1:=x0/2+x1/2", {1}, {L(id2(0, mkq(1, 2), 1, mkq(1, 2)), 0)}, {}}); v.push_back({"turn", {0, 1}, {L(id2(0, mkq(4, 5), 1, mkq(-3, 5)), 0), L(id2(0, mkq(3, 5), 1, mkq(4, 5)), 0)}, {}});
    v.push_back({"x0<=x1:x0+=1", {0}, {L(id(0, 1), 1)}, {mk(U(n, 0, -1, 1, 1), 0, AP_CONS_SUPEQ)}}); }
  if (n >= 3) { v.push_back({"x2+=x1", {2}, {L({0, 1, 1}, 0)}, {}}); v.push_back({"x2+=1", {2}, {L({0, 0, 1}, 1)}, {}}); }
  return v; }
static A0* step(A0* a, const Step& s) { A0* x = cp(a); if (s.guard.size()) { ap_lincons0_array_t g = mk_lincons_array(s.guard, true); x = ap_abstract0_meet_lincons_array(man, true, x, &g); ap_lincons0_array_clear(&g); }
  vector<ap_linexpr0_t*> e; for (auto& l : s.e) e.push_back(mk_linexpr(l, true)); vector<ap_dim_t> d = s.d; x = ap_abstract0_assign_linexpr_array(man, true, x, d.data(), e.data(), d.size(), NULL); for (auto* p : e) ap_linexpr0_free(p); return x; }
// ---- widening operators ----
struct Wd { string name; std::function<A0*(A0*, A0*)> f; vector<Cons> thr; int extra = 0; bool stab = true; };
static ap_lincons0_array_t THR; 
static vector<vector<Cons>> thresholds(size_t n) { vector<vector<Cons>> v; int GE = AP_CONS_SUPEQ; auto ub = [&](size_t i, Q k) { return mk(U(n, i, -1), k, GE); }; auto lb = [&](size_t i, Q k) { return mk(U(n, i, 1), k, GE); };
  v.push_back({}); v.push_back({ub(0, 5)}); v.push_back({ub(0, 2), ub(0, 5), ub(0, 20), lb(0, 0), lb(0, 7)});
  if (n >= 2) { v.push_back({mk(U(n, 0, 1, 1, -1), 0, GE), mk(U(n, 0, -1, 1, -1), 9, GE), ub(1, 3), mk(U(n, 0, -1, 1, 1), 2, GE), lb(0, 1)}); v.push_back({mk(U(n, 0, -2, 1, 1), 4, GE), mk(U(n, 0, -1, 1, -3), 30, GE), lb(1, 0), mk(U(n, 0, 1, 1, -1), 0, AP_CONS_EQ)}); }
  return v; }
static bool representable(const Cons& c) { size_t nz = 0; bool unit = true; for (auto& x : c.e.c) if (x.lo.v != 0) { nz++; if (abs(x.lo.v) != 1) unit = false; } switch (D.kind) { case K_BOX: return nz <= 1; case K_OCT: return nz <= 1 || (nz == 2 && unit); case K_POLY: return true; case K_EQ: return c.t == AP_CONS_EQ; case K_GRID: return c.t == AP_CONS_EQ; default: return false; } }
static ap_scalar_t** scal(const vector<Q>& t) { ap_scalar_t** r = (ap_scalar_t**)malloc((t.size() + 1) * sizeof(*r)); for (size_t i = 0; i < t.size(); i++) r[i] = ap_scalar_alloc(), set_scalar(r[i], EQ(t[i]), R_MPQ); return r; }
typedef A0* (*octw_t)(ap_manager_t*, A0*, A0*, ap_scalar_t**, size_t); typedef A0* (*octn_t)(ap_manager_t*, A0*, A0*); typedef A0* (*octe_t)(ap_manager_t*, A0*, ap_scalar_t*); typedef A0* (*octb_t)(ap_manager_t*, A0*, A0*, ap_scalar_t*); typedef A0* (*pplw_t)(ap_manager_t*, A0*, A0*, ap_lincons0_array_t*);
static vector<Wd> widenings(size_t n) { vector<Wd> v; v.push_back({"widen", [](A0* a, A0* b) { return ap_abstract0_widening(man, a, b); }, {}}); if (WALG == 99) { v[0].stab = false; return v; }
  auto th = thresholds(n); for (size_t k = 0; k < th.size(); k++) for (int form = 0; form < (th[k].size() > 1 ? 2 : 1); form++) { vector<Cons> t = th[k]; if (form) std::reverse(t.begin(), t.end()); v.push_back({"threshold" + std::to_string(k) + (form ? "r" : ""), [t](A0* a, A0* b) { ap_lincons0_array_t x = mk_lincons_array(t, false); A0* r = ap_abstract0_widening_threshold(man, a, b, &x); ap_lincons0_array_clear(&x); return r; }, t, (int)t.size()}); }
  if (D.lib.substr(0, 3) == "oct") { octw_t f = (octw_t)sym(D.lib, "ap_abstract0_oct_widening_thresholds"); int k = 0; for (auto& t : vector<vector<Q>>{{}, {Q(0)}, {Q(-3), Q(0), mkq(5, 2), Q(6), Q(40)}}) v.push_back({"octthr" + std::to_string(k++), [t, f](A0* a, A0* b) { ap_scalar_t** s = scal(t); A0* r = f(man, a, b, s, t.size()); for (size_t i = 0; i < t.size(); i++) ap_scalar_free(s[i]); free(s); return r; }, {}, (int)(t.size() * 2 * n * (n + 1))}); }
  if (D.lib == "ap_ppl") { pplw_t f = (pplw_t)sym(D.lib, D.kind == K_GRID ? "ap_abstract0_ppl_grid_widening_thresholds" : "ap_abstract0_ppl_poly_widening_thresholds"); for (size_t k = 0; k < th.size(); k++) { auto t = th[k]; v.push_back({"pplthr" + std::to_string(k), [t, f](A0* a, A0* b) { ap_lincons0_array_t x = mk_lincons_array(t, false); A0* r = f(man, a, b, &x); ap_lincons0_array_clear(&x); return r; }, t, (int)t.size()}); } }
  // PPL's bounded_* operators are extrapolations, without a termination guarantee of their own
  if (D.lib == "ap_ppl" && (WALG == 1 || WALG == 3)) for (size_t i = 1; i < v.size(); i++) v[i].stab = false;
  return v; }
static int LIM; static int XL = 60;
// Σ of one application: b contains a
static A0* apply(G& g, const Wd& w, A0* a, A0* b, const string& ctx) {
  View va = view(D, a), vb = view(D, b); OwnA ca(cp(a)), cb(cp(b)); man->result.exn = AP_EXC_NONE; A0* r = w.f(a, b); if (man->result.exn) g.fail("exn", ctx + ": exception " + std::to_string(man->result.exn)); if (!r) { g.fail("null", ctx); return cp(b); }
  View vr = view(D, r), va2 = view(D, a), vb2 = view(D, b); auto both = [&] { return ctx + " | a: " + txt(va) + " | b: " + txt(vb) + " | result: " + txt(vr); };
  if (!incl(va, vr) || !incl(vb, vr)) g.fail("upper", "not an upper bound: " + both());
  if (!incl(va, va2) || !incl(va2, va) || !incl(vb, vb2) || !incl(vb2, vb)) g.fail("args", "an argument has changed: " + both());
  ap_dimension_t d = ap_abstract0_dimension(man, r); if ((int)d.intdim != NI || (int)d.realdim != NR) g.fail("dim", both());
  for (auto& t : w.thr) if (representable(t) && D.kind != K_TRACK) { Poly H = universe(NI + NR); add_cons(H, t, NI + NR); bool sa, sr; if (D.kind == K_GRID) { PPL::Grid X = grid_of({t}, NI + NR); sa = X.contains(vb.G); sr = X.contains(vr.G); } else { sa = H.contains(vb.P); sr = H.contains(vr.P); }
      if (sa && !sr) { ap_lincons0_t lc = mk_lincons(t, true); OwnA z(cp(b)); bool k = ap_abstract0_sat_lincons(man, z.a, &lc); ap_lincons0_clear(&lc); if (k) { g.fail("threshold", "threshold " + t.str() + " lost: " + both()); break; } } }
  return r; }
static string dumpv(A0* a) { return dump(D, a); }
// every chain x := x W (x join f(x)) over all sequences of steps; nodes are representations
static void chains(G& g, const Wd& w, const Start& in, const vector<Step>& S) {
  std::map<string, int> seen; long nodes = 0; int maxd = 0; bool stop = false; int lim = LIM + w.extra; if (!w.stab) lim = 3; else if (WALG > 0 && D.lib == "ap_ppl") lim += XL;
  std::function<void(A0*, int, const string&)> go = [&](A0* x, int d, const string& ctx) {
    if (stop) return; maxd = std::max(maxd, d); string k = dumpv(x); auto it = seen.find(k); if (it != seen.end() && it->second >= d) return; bool fresh = it == seen.end(); seen[k] = d; if (fresh) { nodes++; g.state(); }
    if (d > lim) { if (w.stab) { g.fail("stable", "chain still grows after " + std::to_string(d) + " steps: " + ctx + " | " + txt(view(D, x))); stop = true; } return; }
    if (nodes > 4000) return;
    View vx = view(D, x); for (auto& s : S) { OwnA y(step(x, s)); OwnA j(ap_abstract0_join(man, false, x, y.a)); View vj = view(D, j.a); if (incl(vj, vx)) continue; string c2 = ctx + " " + s.name; A0* r = apply(g, w, x, j.a, c2); g.ok(std::hash<string>()(txt(view(D, r)))); go(r, d + 1, c2); ap_abstract0_free(man, r); if (stop) return; } };
  OwnA a(mkinit(in)); go(a.a, 0, in.name); if (in.bot) { OwnA p(mkinit(inits(NI + NR)[1])); OwnA r(apply(g, w, a.a, p.a, in.name + " point")); go(r.a, 0, in.name + " point"); } }
int main(int argc, char** argv) {
  Runner R(argc, argv); D = open_dom(R.dom = R.opt["dom"]); man = D.man; bool deep = R.tier > 0; size_t lite = R.opt.count("lite") ? atoi(R.opt["lite"].c_str()) : 0; WALG = R.opt.count("walg") ? atoi(R.opt["walg"].c_str()) : 0; if (WALG) { ap_funopt_t o = ap_manager_get_funopt(man, AP_FUNID_WIDENING); o.algorithm = WALG; ap_manager_set_funopt(man, AP_FUNID_WIDENING, &o); }
  vector<std::pair<int, int>> dims{{0, 1}, {0, 2}, {1, 1}}; if (deep) { dims.push_back({2, 0}); dims.push_back({0, 3}); }
  for (auto& dm : dims) { size_t n = dm.first + dm.second; string dn = std::to_string(dm.first) + "," + std::to_string(dm.second); auto set = [dm, n] { NI = dm.first; NR = dm.second; LIM = D.kind == K_BOX ? 2 * n + 2 : D.kind == K_OCT ? 2 * n * n + 2 : D.kind == K_EQ ? n + 2 : 8 * n + 2; };
    set(); vector<Wd> W = widenings(n); vector<Start> IN = inits(n); vector<Step> S = steps(n);
    for (size_t wi = 0; wi < W.size(); wi++) for (size_t ii = 0; ii < IN.size(); ii++) {
      R.group("chain " + dn + " " + W[wi].name + " " + IN[ii].name, [=](G& g) { set(); auto W = widenings(n); auto IN = inits(n); auto S = steps(n);
        if (deep || n == 1) { if (n < 3 && g.next([&] { return string("all steps"); })) chains(g, W[wi], IN[ii], S); }
        // every pair (triple) of loop bodies
        for (size_t i = 0; i < S.size(); i++) for (size_t j = i; j < S.size(); j++) { if (lite && n > 1 && j != i && (i + j) % lite) continue; if (deep && n == 2) { for (size_t k = j; k < S.size(); k++) if (g.next([&] { return S[i].name + " | " + S[j].name + " | " + S[k].name; })) chains(g, W[wi], IN[ii], {S[i], S[j], S[k]}); } else if (g.next([&] { return S[i].name + " | " + S[j].name; })) chains(g, W[wi], IN[ii], {S[i], S[j]}); } });
      R.group("pair " + dn + " " + W[wi].name + " " + IN[ii].name, [=](G& g) { set(); auto W = widenings(n); auto IN = inits(n); for (size_t k = 0; k < IN.size(); k++) for (int rep = 0; rep < 4; rep++) if (g.next([&] { return IN[k].name + " rep" + std::to_string(rep); })) {
            OwnA a(mkinit(IN[ii])), y(mkinit(IN[k])), j(ap_abstract0_join(man, false, a.a, y.a)); if (rep & 1) { ap_abstract0_canonicalize(man, a.a); } if (rep & 2) { ap_abstract0_minimize(man, j.a); } View vj = view(D, j.a), va = view(D, a.a); OwnA r(apply(g, W[wi], a.a, j.a, IN[ii].name + " with " + IN[k].name)); g.ok(std::hash<string>()(txt(view(D, r.a))));
            if (incl(vj, va) && W[wi].stab && D.name != "pplpoly:strict") { View vr = view(D, r.a); if (!incl(vr, va)) g.fail("stationary", "widening with itself grows: " + txt(va) + " to " + txt(vr)); }
            if (WALG == 99) { // the degenerate hull is never larger than the widening
              ap_funopt_t o = ap_manager_get_funopt(man, AP_FUNID_WIDENING); o.algorithm = 0; ap_manager_set_funopt(man, AP_FUNID_WIDENING, &o); OwnA w(ap_abstract0_widening(man, a.a, j.a)); o.algorithm = 99; ap_manager_set_funopt(man, AP_FUNID_WIDENING, &o); if (!incl(view(D, r.a), view(D, w.a))) g.fail("prewiden", "degenerate hull " + txt(view(D, r.a)) + " larger than the widening " + txt(view(D, w.a))); } } });
    }
    if (D.lib.substr(0, 3) == "oct") { R.group("octnarrow " + dn, [=](G& g) { set(); auto IN = inits(n); octn_t nf = (octn_t)sym(D.lib, "ap_abstract0_oct_narrowing"); octe_t ef = (octe_t)sym(D.lib, "ap_abstract0_oct_add_epsilon"); octb_t bf = (octb_t)sym(D.lib, "ap_abstract0_oct_add_epsilon_bin");
        for (size_t i = 0; i < IN.size(); i++) for (size_t k = 0; k < IN.size(); k++) for (int rep = 0; rep < 4; rep++) { auto prep = [&](A0* x, bool c) { if (c) ap_abstract0_canonicalize(man, x); return x; };
          if (g.next([&] { return "narrow " + IN[i].name + " " + IN[k].name + " rep" + std::to_string(rep); })) { OwnA a(prep(mkinit(IN[i]), rep & 1)), y(mkinit(IN[k])), m(prep(ap_abstract0_meet(man, false, a.a, y.a), rep & 2)); View va = view(D, a.a), vm = view(D, m.a); OwnA r(nf(man, a.a, m.a)); View vr = view(D, r.a); if (!incl(vm, vr) || !incl(vr, va)) g.fail("narrow", "not between: a " + txt(va) + " b " + txt(vm) + " result " + txt(vr)); g.ok(std::hash<string>()(txt(vr)));
            // a decreasing chain of narrowings by the same smaller value is stationary after one step
            OwnA r2(nf(man, r.a, m.a)); View v2 = view(D, r2.a); if (!incl(vm, v2) || !incl(v2, vr)) g.fail("narrow", "second step not between"); OwnA r3(nf(man, r2.a, m.a)); if (!incl(view(D, r2.a), view(D, r3.a))) g.fail("narrow", "does not stabilise"); }
          if (k == 0 || rep < 2) for (auto& ep : {Q(0), mkq(1, 2), Q(3)}) if (g.next([&] { return "epsilon " + qs(ep) + " " + IN[i].name + " " + IN[k].name + " rep" + std::to_string(rep); })) { ap_scalar_t* s = ap_scalar_alloc(); set_scalar(s, EQ(ep), R_MPQ); OwnA a(prep(mkinit(IN[i]), rep & 1)), y(prep(mkinit(IN[k]), rep & 2)); View va = view(D, a.a), vy = view(D, y.a); OwnA e1(ef(man, a.a, s)), e2(bf(man, a.a, y.a, s)); View v1 = view(D, e1.a), v2 = view(D, e2.a); ap_scalar_free(s);
              if (!incl(va, v1)) g.fail("epsilon", "add_epsilon loses points: " + txt(va) + " result " + txt(v1)); if (!empty(va) && !empty(vy) && !(incl(va, v2) && incl(vy, v2))) g.fail("epsilon", "add_epsilon_bin loses points: " + txt(va) + " result " + txt(v2)); if (ep == 0 && !incl(v1, va)) g.fail("epsilon", "epsilon 0 enlarges " + txt(va) + " to " + txt(v1)); 
              // directions in which the argument has no bound stay unbounded (by how much the others move depends on the representation: an unclosed matrix has larger entries)
              if (D.exactnum && (rep & 1) && !empty(va)) { Q mx = 0; vector<std::pair<vector<Q>, Q>> dirs; for (size_t p = 0; p < n; p++) for (int sg = -1; sg <= 1; sg += 2) { vector<Q> c(n, Q(0)); c[p] = 2 * sg; dirs.push_back({c, Q(0)}); for (size_t q = p + 1; q < n; q++) for (int sh = -1; sh <= 1; sh += 2) { vector<Q> e(n, Q(0)); e[p] = sg; e[q] = sh; dirs.push_back({e, Q(0)}); } }
                vector<EQ> b; for (auto& d : dirs) { bool at; EQ m = psup(va.P, d.first, Q(0), at); b.push_back(m); if (!m.inf && abs(m.v) > mx) mx = abs(m.v); } if (!empty(v1)) for (size_t q = 0; q < dirs.size(); q++) { bool at; EQ m = psup(v1.P, dirs[q].first, Q(0), at); EQ want = b[q].inf ? b[q] : EQ(Q(b[q].v + mx * ep)); if (NI == 0 && b[q].inf && !m.inf) { g.fail("epsilon", "bound " + es(b[q]) + " becomes " + es(m) + ", expected " + es(want) + " for " + txt(va)); break; } } }
              g.ok(std::hash<string>()(txt(v1) + txt(v2))); } } }); }
  }
  return R.run();
}
