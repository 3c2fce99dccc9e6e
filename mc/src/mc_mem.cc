// Memory explorer, level 0 (C23): every sequence "initial value; operation; operation or query" of the domain alphabets, as a
// client that releases everything it owns. Built with block accounting (MC_MEM) or AddressSanitizer (MC_ASAN).
#include "engine.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
typedef ap_abstract0_t A0;
static Dom D; static ap_manager_t* man;
static void nop() {}
struct Q2 { string nm; std::function<size_t(A0*)> f; };
static size_t hs(const string& s) { return std::hash<string>()(s); }
static string pr(std::function<void(FILE*)> f) { char* b = 0; size_t s = 0; FILE* o = open_memstream(&b, &s); f(o); fclose(o); string r(b, s); free(b); return r; }
static size_t hitv(ap_interval_t* i) { if (!i) return 7; string s = pr([&](FILE* o) { ap_interval_fprint(o, i); }); ap_interval_free(i); return hs(s); }
static size_t hflags() { return (man->result.flag_exact ? 3 : 5) * (man->result.flag_best ? 11 : 13); }
static vector<Q2> queries(int I, int R) { int n = I + R; vector<Q2> q;
  auto add = [&](const string& s, std::function<size_t(A0*)> f) { q.push_back({s, f}); };
  add("fprint", [](A0* a) { return hs(pr([&](FILE* o) { ap_abstract0_fprint(o, man, a, NULL); })); });
  add("fdump", [](A0* a) { return pr([&](FILE* o) { ap_abstract0_fdump(o, man, a); }).size() ? 1 : 2; });
  add("minimize", [](A0* a) { ap_abstract0_minimize(man, a); return 1; }); add("canonicalize", [](A0* a) { ap_abstract0_canonicalize(man, a); return 1; });
  add("canonicalize; hash", [](A0* a) { ap_abstract0_canonicalize(man, a); return (size_t)ap_abstract0_hash(man, a); });
  for (int k : {-1, 0, 1, 2, 3, 10}) add("approximate(" + std::to_string(k) + ")", [k](A0* a) { ap_abstract0_approximate(man, a, k); return 1; });
  add("size", [](A0* a) { ap_abstract0_size(man, a); return 1; }); add("is_bottom", [](A0* a) { return (size_t)ap_abstract0_is_bottom(man, a); }); add("is_top", [](A0* a) { return (size_t)ap_abstract0_is_top(man, a); });
  add("is_leq(copy)", [](A0* a) { A0* c = ap_abstract0_copy(man, a); bool b = ap_abstract0_is_leq(man, a, c); ap_abstract0_free(man, c); return (size_t)b; }); add("is_eq(minimised copy)", [](A0* a) { A0* c = ap_abstract0_copy(man, a); ap_abstract0_minimize(man, c); bool b = ap_abstract0_is_eq(man, c, a); ap_abstract0_free(man, c); return (size_t)b; });
  add("fprintdiff", [I, R](A0* a) { A0* c = ap_abstract0_top(man, I, R); string s = pr([&](FILE* o) { ap_abstract0_fprintdiff(o, man, a, c, NULL); }); ap_abstract0_free(man, c); return hs(s); });
  add("to_box", [n](A0* a) { ap_interval_t** t = ap_abstract0_to_box(man, a); size_t h = 0; for (int i = 0; t && i < n; i++) h = h * 31 + hs(pr([&](FILE* o) { ap_interval_fprint(o, t[i]); })); if (t) ap_interval_array_free(t, n); return h; });
  add("to_lincons", [](A0* a) { auto t = ap_abstract0_to_lincons_array(man, a); size_t h = hs(pr([&](FILE* o) { ap_lincons0_array_fprint(o, &t, NULL); })); ap_lincons0_array_clear(&t); return h; });
  add("to_tcons", [](A0* a) { auto t = ap_abstract0_to_tcons_array(man, a); size_t h = hs(pr([&](FILE* o) { ap_tcons0_array_fprint(o, &t, NULL); })); ap_tcons0_array_clear(&t); return h; });
  add("to_generators", [](A0* a) { auto t = ap_abstract0_to_generator_array(man, a); size_t h = hs(pr([&](FILE* o) { ap_generator0_array_fprint(o, &t, NULL); })); ap_generator0_array_clear(&t); return h; });
  if (D.kind != K_TRACK && D.kind != K_POLY && D.kind != K_GRID && D.kind != K_BOX && D.kind != K_EQ) add("serialize", [](A0* a) { size_t sz = 0; auto b = ap_abstract0_serialize_raw(man, a); A0* c = ap_abstract0_deserialize_raw(man, b.ptr, &sz); bool e = c && ap_abstract0_is_eq(man, a, c); if (c) ap_abstract0_free(man, c); free(b.ptr); return (size_t)e; });
  for (int d = 0; d < n; d++) { add("bound(x" + std::to_string(d) + ")", [d](A0* a) { return hitv(ap_abstract0_bound_dimension(man, a, d)); }); add("unconstrained(x" + std::to_string(d) + ")", [d](A0* a) { return (size_t)ap_abstract0_is_dimension_unconstrained(man, a, d); });
    add("sat_interval(x" + std::to_string(d) + ")", [d](A0* a) { Itv v(EQ(mkq(-1)), EQ(mkq(5, 2))); ap_interval_t* i = mk_interval(v, d % 3); bool b = ap_abstract0_sat_interval(man, a, d, i); ap_interval_free(i); return (size_t)b; }); }
  auto al = std::make_shared<Alpha>(I, R, 0); size_t k = 0;
  for (auto l : al->forms(1)) { k++; if (n > 1 && k % 3) continue; int sp = k % 2, rep = k % 3; add("bound(" + l.str() + ")", [=](A0* a) { auto* e = mk_linexpr(l, sp, rep); size_t h = hitv(ap_abstract0_bound_linexpr(man, a, e)); ap_linexpr0_free(e); return h; });
    for (int t : {AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_DISEQ, AP_CONS_EQMOD}) { if ((k + t) % 2) continue; Cons c; c.e = l; c.t = t; c.mod = t == AP_CONS_EQMOD ? Q(2) : Q(0); add("sat(" + c.str() + ")", [=](A0* a) { auto lc = mk_lincons(c, sp, rep); bool b = ap_abstract0_sat_lincons(man, a, &lc); ap_lincons0_clear(&lc); return (size_t)b; }); } }
  k = 0; for (auto l : al->iforms()) { k++; if (k % 3) continue; add("bound(" + l.str() + ")", [=](A0* a) { auto* e = mk_linexpr(l, k % 2, k % 3); size_t h = hitv(ap_abstract0_bound_linexpr(man, a, e)); ap_linexpr0_free(e); return h; }); }
  k = 0; for (auto te : al->texprs(0)) { k++; if (k % 2 == 0) continue; add("bound(" + tes(te) + ")", [=](A0* a) { auto* e = mk_texpr(te, k % 3); size_t h = hitv(ap_abstract0_bound_texpr(man, a, e)); ap_texpr0_free(e); return h; });
    add("sat(" + tes(te) + ">0)", [=](A0* a) { TCons c; c.e = te; c.t = AP_CONS_SUP; c.mod = 0; auto ta = mk_tcons_array({c}, k % 3); bool b = ap_abstract0_sat_tcons(man, a, &ta.p[0]); ap_tcons0_array_clear(&ta); return (size_t)b; }); }
  return q; }
static void clr() { ap_manager_clear_exclog(man); man->result.exn = AP_EXC_NONE; }
// a second argument that is not the first
static A0* part(const vector<Init>& in, size_t k) { return in[k % in.size()].run(man); }
static bool skipop(const string& t) { return t.find("serialize") != string::npos && (D.kind != K_OCT); }
int main(int argc, char** argv) { Runner R(argc, argv); D = open_dom(R.opt["dom"]); R.dom = R.opt["dom"]; man = D.man; int T = R.tier; string dims = R.opt.count("dims") ? R.opt["dims"] : "0,0;0,1;1,1;0,2"; size_t st2 = R.opt.count("stride") ? atoi(R.opt["stride"].c_str()) : 3; 
  std::map<std::pair<int, int>, std::shared_ptr<Alpha>> AL; auto alpha = [&AL](int I, int R) -> Alpha& { auto& p = AL[{I, R}]; if (!p) p = std::make_shared<Alpha>(I, R, 0); return *p; };
  std::map<std::pair<int, int>, vector<Q2>> QL; auto ql = [&QL](int I, int R) -> vector<Q2>& { auto& p = QL[{I, R}]; if (p.empty()) p = queries(I, R); return p; };
  std::stringstream ss(dims); string t; while (std::getline(ss, t, ';')) { int I = atoi(t.c_str()), Rr = atoi(t.substr(t.find(',') + 1).c_str()); auto in = std::make_shared<vector<Init>>(initials(I, Rr));
    for (auto& o : alpha(I, Rr).ops) { alpha(o->OI, o->OR); ql(o->OI, o->OR); for (auto& o2 : alpha(o->OI, o->OR).ops) if (o2->core) ql(o2->OI, o2->OR); }
    for (size_t ii = 0; ii < in->size(); ii++) {
      // one operation, then every query, then free; and every query on the initial value
      R.group("one " + t + " " + (*in)[ii].txt, [=, &AL, &QL](G& g) { Alpha& al = *AL[{I, Rr}];
        for (auto& q : QL[{I, Rr}]) if (g.next([&] { return "query " + q.nm; })) { A0* a = (*in)[ii].run(man); clr(); size_t h = q.f(a); g.ok(h * hflags()); h = q.f(a); g.ok(h); ap_abstract0_free(man, a); clr(); g.state(); }
        size_t k = 0; for (auto& o : al.ops) { k++; if (skipop(o->txt)) continue; for (int d = 0; d < (o->destr ? 2 : 1); d++) for (int self = 0; self < (o->arity == 1 ? 1 : 2); self++) if (g.next([&] { return o->txt + (d ? " destructive" : "") + (self ? " with itself" : ""); })) {
          A0* a = (*in)[ii].run(man); A0* b = o->arity == 1 ? NULL : self ? (d ? ap_abstract0_copy(man, a) : a) : part(*in, ii + k); clr(); A0* r = o->run(man, d, a, b); size_t fl = hflags(); g.state();
          if (!d && r != a) ap_abstract0_free(man, a); if (b && b != a) ap_abstract0_free(man, b);
          if (r) { auto& qs = QL[{o->OI, o->OR}]; for (size_t j = k % 3; j < qs.size(); j += 3) { auto& q = qs[j]; g.ok(q.f(r) * fl); } ap_abstract0_free(man, r); } clr(); } } });
      R.group("two " + t + " " + (*in)[ii].txt, [=, &AL, &QL](G& g) { Alpha& al = *AL[{I, Rr}]; size_t k = 0;
        for (auto& o : al.ops) { k++; if (skipop(o->txt)) continue; if (!o->core && !T && (k + ii) % st2) continue; size_t k2 = 0; for (auto& o2 : AL[{o->OI, o->OR}]->ops) { k2++; if (skipop(o2->txt)) continue; if (!o2->core && (k + k2 + ii) % (T ? 5 : 29)) continue; 
          int d = o->destr && (k + k2) % 2, d2 = o2->destr && (k + k2) % 3; if (!g.next([&] { return o->txt + (d ? " destructive" : "") + " ; " + o2->txt + (d2 ? " destructive" : ""); })) continue;
          A0* a = (*in)[ii].run(man); A0* b = o->arity == 1 ? NULL : part(*in, ii + k); clr(); A0* r = o->run(man, d, a, b); g.state(); if (!d && r != a) ap_abstract0_free(man, a); if (b) ap_abstract0_free(man, b);
          if (r) { auto& qs = QL[{o->OI, o->OR}]; if (k2 % 2) g.ok(qs[(k + k2) % qs.size()].f(r)); A0* c = ap_abstract0_copy(man, r); A0* b2 = o2->arity == 1 ? NULL : ap_abstract0_copy(man, r); clr(); A0* r2 = o2->run(man, d2, r, b2); if (!d2 && r2 != r) ap_abstract0_free(man, r); if (b2) ap_abstract0_free(man, b2);
            if (r2) { if (o2->OI == o->OI && o2->OR == o->OR) g.ok(ap_abstract0_is_leq(man, r2, c) * hflags()); auto& q2 = QL[{o2->OI, o2->OR}]; if (q2.size()) { g.ok(q2[(k + 3 * k2) % q2.size()].f(r2)); g.ok(q2[0].f(r2)); } ap_abstract0_free(man, r2); } ap_abstract0_free(man, c); } clr(); } } }); } }
  return R.run(); }
