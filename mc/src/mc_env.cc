// Environments: every operation on every environment over a small set of names, against maps from names to types (C19).
#include "env.hh"
#include "flat.hh"
using flat::G; using flat::Runner;
static bool check(G& g, ap_environment_t* e, const Env& m, const string& what, size_t count = 1) {
  if (!e) { g.fail("null", what + " refused, expected " + es(m)); return false; }
  vector<string> l = lay(m); size_t ni = 0; for (auto& x : m) ni += !x.second; bool ok = e->intdim == ni && e->realdim == m.size() - ni; string got; if (ok) for (size_t i = 0; i < l.size(); i++) { if (l[i] != (char*)e->var_of_dim[i]) ok = false; got += string((char*)e->var_of_dim[i]) + " "; }
  if (!ok) { g.fail("value", what + " gives (" + std::to_string(e->intdim) + "," + std::to_string(e->realdim) + ") " + got + " expected " + es(m)); return false; }
  for (const char* n : {"a", "a1", "ab", "b", "", "zz", "a2", "aa"}) { size_t w = std::find(l.begin(), l.end(), string(n)) - l.begin(); char t[8]; strcpy(t, n); ap_dim_t d = ap_environment_dim_of_var(e, t); if (d != (w < l.size() ? w : AP_DIM_MAX)) g.fail("lookup", what + ": dimension of " + n); if (ap_environment_mem_var(e, t) != (w < l.size())) g.fail("lookup", what + ": membership of " + n); }
  for (size_t i = 0; i < l.size() + 2; i++) { char* v = (char*)ap_environment_var_of_dim(e, i); if (i < l.size() ? (!v || l[i] != v) : v != NULL) g.fail("lookup", what + ": name of dimension " + std::to_string(i)); }
  if (count && e->count != count) g.fail("count", what + ": reference count " + std::to_string(e->count) + " expected " + std::to_string(count));
  return true; }
static vector<vector<string>> seqs(int n, int len, bool unknown = false) { vector<string> a(NM, NM + n); if (unknown) a.push_back("zz"); vector<vector<string>> r = {{}}, cur = {{}}; for (int k = 0; k < len; k++) { vector<vector<string>> nx; for (auto& v : cur) for (auto& x : a) { auto w = v; w.push_back(x); nx.push_back(w); } r.insert(r.end(), nx.begin(), nx.end()); cur = nx; } return r; }
// the vector over env b obtained from the identity vector over a
static vector<string> applyadd(const vector<string>& v, ap_dimchange_t* d) { vector<string> r; size_t n = d->intdim + d->realdim, k = 0; for (size_t i = 0; i <= v.size(); i++) { while (k < n && d->dim[k] == i) { r.push_back("+"); k++; } if (i < v.size()) r.push_back(v[i]); } return k == n ? r : vector<string>{"bad dimchange"}; }
static vector<string> over(const Env& a, const Env& b) { vector<string> r; for (auto& x : lay(b)) r.push_back(a.count(x) ? x : "+"); return r; }
static void checkchange(G& g, ap_dimchange_t* d, const Env& a, const Env& b, const string& what) { // d must lead from a to its superset b
  if (!d) { if (a.size() != b.size()) g.fail("change", what + ": no change although dimensions are added"); return; }
  if (d->intdim != nint(b) - nint(a) || d->realdim != (b.size() - nint(b)) - (a.size() - nint(a))) { g.fail("change", what + ": wrong numbers of added dimensions"); return; }
  auto r = applyadd(lay(a), d); if (r != over(a, b)) g.fail("change", what + ": gives " + ns(r) + " expected " + ns(over(a, b))); }
int main(int argc, char** argv) {
  Runner R(argc, argv); R.dom = "env"; int T = R.tier; int N = T ? 5 : 4; static vector<Env> EV = envs(N);
  for (int n = 0; n < N; n++) R.group("alloc " + std::to_string(n), [=](G& g) { for (auto& a : seqs(N, T ? 3 : 2)) { if (a.size() ? a[0] != NM[n] : n) continue; for (auto& b : seqs(N, 3)) { if (!g.next([&] { return ns(a) + ns(b); })) continue; Env m; bool dup = false; for (auto& x : a) { if (m.count(x)) dup = true; m[x] = 0; } for (auto& x : b) { if (m.count(x)) dup = true; m[x] = 1; } ap_environment_t* e; { Vars va(a), vb(b); e = ap_environment_alloc(a.size() ? va.a() : NULL, a.size(), b.size() ? vb.a() : NULL, b.size()); for (size_t i = 0; i < a.size(); i++) if (a[i] != va.p[i]) g.fail("args", "argument changed"); } if (dup) { if (e) g.fail("dup", "accepted a repeated name"); } else if (check(g, e, m, "alloc")) { // counting
              ap_environment_t* c = ap_environment_copy(e); if (c != e || e->count != 2) g.fail("count", "ap_environment_copy"); ap_environment_free(c); check(g, e, m, "alloc then copy and free");
              ap_environment_name_of_dim_t* nd = ap_environment_name_of_dim_alloc(e); auto l = lay(m); if (nd->size != l.size()) g.fail("names", "size"); else for (size_t i = 0; i < l.size(); i++) if (l[i] != nd->p[i]) g.fail("names", "wrong name"); ap_environment_name_of_dim_free(nd);
              char* p = NULL; size_t sz; FILE* o = open_memstream(&p, &sz); ap_environment_fdump(o, e); fclose(o); char h[100]; sprintf(h, "environment: dim = (%zu,%zu), count = 1\n", e->intdim, e->realdim); string w = h; for (size_t i = 0; i < l.size(); i++) { sprintf(h, "%2zu: %s\n", i, l[i].c_str()); w += h; } if (w != p) g.fail("print", p); free(p); }
            if (e) ap_environment_free(e); g.ok(dup); } } });
  for (size_t part = 0; part < 9; part++) R.group("add " + std::to_string(part), [=](G& g) { for (size_t q = part; q < EV.size(); q += 9) { const Env& m = EV[q]; for (auto& a : seqs(N, 2)) for (auto& b : seqs(N, T ? 3 : 2)) { if (a.size() + b.size() > 3) continue; if (!g.next([&] { return es(m) + " + " + ns(a) + ns(b); })) continue; Env w = m; bool dup = false; for (auto& x : a) { if (w.count(x)) dup = true; w[x] = 0; } for (auto& x : b) { if (w.count(x)) dup = true; w[x] = 1; }
          ap_environment_t *e = mk(m), *r, *s; ap_dimperm_t p; p.dim = (ap_dim_t*)8; p.size = 77; { Vars va(a), vb(b); r = ap_environment_add(e, va.a(), a.size(), vb.a(), b.size()); s = ap_environment_add_perm(e, va.a(), a.size(), vb.a(), b.size(), &p); }
          check(g, e, m, "add (argument)"); if (dup) { if (r || s) g.fail("dup", "accepted a repeated name"); if (p.dim) g.fail("perm", "permutation not null after a failure"); } else { check(g, r, w, "add"); if (check(g, s, w, "add_perm")) { vector<string> old; auto l = lay(m); size_t ni = nint(m); for (size_t i = 0; i < ni; i++) old.push_back(l[i]); old.insert(old.end(), a.begin(), a.end()); for (size_t i = ni; i < l.size(); i++) old.push_back(l[i]); old.insert(old.end(), b.begin(), b.end()); auto nl = lay(w); if (p.size != old.size()) g.fail("perm", "size"); else for (size_t i = 0; i < old.size(); i++) if (p.dim[i] >= nl.size() || nl[p.dim[i]] != old[i]) g.fail("perm", "dimension " + std::to_string(i) + " sent to " + std::to_string(p.dim[i])); ap_dimperm_clear(&p); } }
          if (r) ap_environment_free(r); if (s) ap_environment_free(s); ap_environment_free(e); g.ok(dup); } } });
  for (size_t part = 0; part < 9; part++) R.group("remove " + std::to_string(part), [=](G& g) { for (size_t q = part; q < EV.size(); q += 9) { const Env& m = EV[q]; for (auto& a : seqs(N, T ? 4 : 3, true)) { if (!g.next([&] { return es(m) + " - " + ns(a); })) continue; Env w = m; bool unk = false, dup = false; std::set<string> seen; for (auto& x : a) { if (!m.count(x)) unk = true; if (!seen.insert(x).second) dup = true; w.erase(x); } ap_environment_t *e = mk(m), *r; { Vars va(a); vector<char*> cp(va.p); r = ap_environment_remove(e, va.a(), a.size()); if (cp != va.p) g.fail("args", "array reordered"); }
        if (unk) { if (r) g.fail("unknown", "removed an unknown name"); } else if (!(dup && !r)) check(g, r, w, "remove", a.empty() ? 2 : 1); if (r) ap_environment_free(r); check(g, e, m, "remove (argument)"); ap_environment_free(e); g.ok(unk); } } });
  for (size_t part = 0; part < EV.size(); part += (T ? 9 : 3)) R.group("pair " + std::to_string(part), [=](G& g) { for (size_t q = part; q < EV.size() && q < part + (T ? 9 : 3); q++) { const Env& a = EV[q]; for (auto& b : EV) { if (!g.next([&] { return es(a) + es(b); })) continue; ap_environment_t *x = mk(a), *y = mk(b);
          bool eq = a == b, le = sub(a, b), ge = sub(b, a), co = compat(a, b); int w = !co ? -2 : eq ? 0 : le ? -1 : ge ? 1 : 2;
          if (ap_environment_is_eq(x, y) != eq) g.fail("is_eq", "wrong"); if (ap_environment_is_leq(x, y) != le) g.fail("is_leq", "wrong"); int c = ap_environment_compare(x, y); if (c != w) g.fail("compare", "gives " + std::to_string(c) + " expected " + std::to_string(w)); if (eq && ap_environment_hash(x) != ap_environment_hash(y)) g.fail("hash", "equal environments hash differently");
          if (q == 0 || eq) { if (!ap_environment_is_eq(x, x) || !ap_environment_is_leq(x, x) || ap_environment_compare(x, x)) g.fail("is_eq", "not reflexive"); }
          ap_dimchange_t* d = ap_environment_dimchange(x, y); if (!d != !le) g.fail("dimchange", d ? "accepted" : "refused"); else if (d) checkchange(g, d, a, b, "dimchange"); if (d) ap_dimchange_free(d);
          ap_dimchange2_t* d2 = ap_environment_dimchange2(x, y); if (!d2 != !co) g.fail("dimchange2", d2 ? "accepted" : "refused"); else if (d2) { Env u = uni(a, b); checkchange(g, d2->add, a, u, "dimchange2 add"); if (!d2->remove) { if (u.size() != b.size()) g.fail("dimchange2", "nothing removed"); } else { auto l = lay(u); std::set<size_t> rm; size_t n = d2->remove->intdim + d2->remove->realdim; for (size_t i = 0; i < n; i++) { if (i && d2->remove->dim[i] <= d2->remove->dim[i - 1]) g.fail("dimchange2", "not sorted"); rm.insert(d2->remove->dim[i]); } vector<string> r; for (size_t i = 0; i < l.size(); i++) if (!rm.count(i)) r.push_back(l[i]); if (r != lay(b)) g.fail("dimchange2", "leads to " + ns(r)); if (d2->remove->intdim != nint(u) - nint(b)) g.fail("dimchange2", "integer count"); } } if (d2) ap_dimchange2_free(d2);
          ap_dimchange_t *c1 = (ap_dimchange_t*)8, *c2 = (ap_dimchange_t*)8; ap_environment_t* l = ap_environment_lce(x, y, &c1, &c2); if (!l != !co) g.fail("lce", l ? "accepted" : "refused"); else if (l) { Env u = uni(a, b); check(g, l, u, "lce", 0); if ((u.size() == a.size()) != !c1) g.fail("lce", "first change null or not"); if ((u.size() == b.size()) != !c2) g.fail("lce", "second change null or not"); checkchange(g, c1, a, u, "lce 1"); checkchange(g, c2, b, u, "lce 2"); if (!c1 && l != x) g.fail("lce", "not the first environment itself"); if (c1) ap_dimchange_free(c1); if (c2) ap_dimchange_free(c2); ap_environment_free(l); }
          check(g, x, a, "argument"); check(g, y, b, "argument"); ap_environment_free(x); ap_environment_free(y); g.ok(w); } } });
  static vector<Env> E3 = envs(3), E4 = envs(4), E2 = envs(2); struct S { int size; vector<Env>* v; }; static vector<S> sz = {{1, &E4}, {2, &E3}, {3, T ? &E4 : &E3}, {4, T > 1 ? &E4 : T ? &E3 : &E2}};
  for (auto& z : sz) for (size_t first = 0; first < z.v->size(); first++) { int size = z.size; vector<Env>* V = z.v; R.group("lce_array " + std::to_string(size) + " " + es((*V)[first]), [=](G& g) { size_t M = 1; for (int i = 1; i < size; i++) M *= V->size(); vector<ap_environment_t*> pool, pool2; for (auto& e : *V) { pool.push_back(mk(e)); pool2.push_back(mk(e)); }
      for (size_t c = 0; c < M; c++) for (int share = 0; share < 2; share++) { if (!g.next([&] { string s = std::to_string(share); size_t k = c; for (int i = 1; i < size; i++, k /= V->size()) s += es((*V)[k % V->size()]); return s; })) continue;
        vector<size_t> ix = {first}; size_t k = c; for (int i = 1; i < size; i++, k /= V->size()) ix.push_back(k % V->size()); vector<ap_environment_t*> in; Env u; bool co = true; vector<Env> ms; for (int i = 0; i < size; i++) { in.push_back((share && i % 2 ? pool2 : pool)[ix[i]]); ms.push_back((*V)[ix[i]]); for (auto& m : ms) if (!compat(m, ms.back())) co = false; u = uni(u, ms.back()); }
        bool same = true; for (auto& m : ms) if (m != ms[0]) same = false; auto keep = in; vector<size_t> cnt; for (auto* e : keep) cnt.push_back(e->count); ap_dimchange_t** t = (ap_dimchange_t**)8; ap_environment_t* r = ap_environment_lce_array(&in[0], size, &t);
        if (in != keep) g.fail("args", "array of environments reordered"); if (!r != !co) g.fail("lce_array", r ? "accepted" : "refused"); if (!r) { if (t) g.fail("lce_array", "changes not null after a failure"); g.ok(0); continue; } check(g, r, u, "lce_array", 0); if (same && t) g.fail("lce_array", "changes given although the environments are equal"); if (!same && !t) g.fail("lce_array", "no changes given");
        if (t) { for (int i = 0; i < size; i++) { if (!t[i] != (ms[i].size() == u.size())) { g.fail("lce_array", "change " + std::to_string(i) + " null or not"); continue; } checkchange(g, t[i], ms[i], u, "lce_array change " + std::to_string(i)); if (t[i]) ap_dimchange_free(t[i]); } free(t); }
        ap_environment_free(r); for (int i = 0; i < size; i++) if (keep[i]->count != cnt[i]) { g.fail("count", "reference count of an argument is " + std::to_string(keep[i]->count) + " after freeing the result"); keep[i]->count = cnt[i]; } g.ok(1); }
      for (auto* e : pool) ap_environment_free(e); for (auto* e : pool2) ap_environment_free(e); }); }
  for (size_t part = 0; part < 27; part++) R.group("rename " + std::to_string(part), [=](G& g) { auto A = seqs(N, T > 1 ? 3 : 2, true); for (size_t q = part; q < EV.size(); q += 27) { const Env& m = EV[q]; for (auto& a : A) for (auto& b : A) { if (a.size() != b.size()) continue; if (std::set<string>(a.begin(), a.end()).size() != a.size()) continue; if (!g.next([&] { return es(m) + ns(a) + ns(b); })) continue; bool bad = false; std::map<string, string> f; for (size_t i = 0; i < a.size(); i++) { if (!m.count(a[i])) bad = true; f[a[i]] = b[i]; } Env w; for (auto& x : m) { string n = f.count(x.first) ? f[x.first] : x.first; if (w.count(n)) bad = true; w[n] = x.second; }
          ap_environment_t *e = mk(m), *r; ap_dimperm_t p; p.dim = (ap_dim_t*)8; p.size = 77; { Vars va(a), vb(b); r = ap_environment_rename(e, va.a(), vb.a(), a.size(), &p); } if (bad) { if (r) g.fail("rename", "accepted"); if (p.dim) g.fail("perm", "permutation not null after a failure"); } else { auto oldl = lay(m), nl = lay(w); // check() looks names up
            if (!r) g.fail("rename", "refused"); else { if (check(g, r, w, "rename")) { if (p.size != oldl.size()) g.fail("perm", "size"); else for (size_t i = 0; i < oldl.size(); i++) { string n = f.count(oldl[i]) ? f[oldl[i]] : oldl[i]; if (p.dim[i] >= nl.size() || nl[p.dim[i]] != n) g.fail("perm", "dimension " + std::to_string(i) + " sent to " + std::to_string(p.dim[i])); } } ap_dimperm_clear(&p); } }
          if (r) ap_environment_free(r); check(g, e, m, "argument"); ap_environment_free(e); g.ok(bad); } } });
  // larger environments: lookup, sorting
  R.group("wide", [=](G& g) { for (size_t n : {9u, 17u, 33u}) for (size_t ints = 0; ints <= n; ints++) for (size_t rot = 0; rot < n; rot++) { if (!g.next([&] { return std::to_string(n) + " " + std::to_string(ints) + " " + std::to_string(rot); })) continue; vector<string> v; for (size_t i = 0; i < n; i++) v.push_back("v" + std::to_string((i * 7 + rot) % n)); if (n % 7 == 0) continue; vector<string> a(v.begin(), v.begin() + ints), b(v.begin() + ints, v.end()); Env m; for (auto& x : a) m[x] = 0; for (auto& x : b) m[x] = 1; ap_environment_t* e; { Vars va(a), vb(b); e = ap_environment_alloc(va.a(), a.size(), vb.a(), b.size()); } if (check(g, e, m, "alloc")) { auto l = lay(m); for (size_t i = 0; i < n; i++) if (ap_environment_dim_of_var(e, (ap_var_t)l[i].c_str()) != i) g.fail("lookup", "dimension of " + l[i]);
          vector<string> rm; for (size_t i = rot % 3; i < n; i += 3) rm.push_back(v[i]); Env w = m; for (auto& x : rm) w.erase(x); ap_environment_t* r; { Vars vr(rm); r = ap_environment_remove(e, vr.a(), rm.size()); } check(g, r, w, "remove"); if (r) { ap_dimchange_t* d = ap_environment_dimchange(r, e); if (!d) g.fail("dimchange", "refused"); else { checkchange(g, d, w, m, "dimchange"); ap_dimchange_free(d); } if (!ap_environment_is_leq(r, e) || ap_environment_is_leq(e, r)) g.fail("is_leq", "wrong"); ap_environment_free(r); } }
        if (e) ap_environment_free(e); g.ok(n); } });
  return R.run();
}
