// Domain instances under test.
#ifndef MC_DOM_HH
#define MC_DOM_HH
#include "base.hh"
#include <dlfcn.h>
#include <unistd.h>
enum Kind { K_BOX, K_OCT, K_POLY, K_EQ, K_GRID, K_TRACK };
struct Dom {
  string name, lib; Kind kind; bool exactnum, strict; int algo; ap_manager_t* man; string sys;
  bool tracked() const { return kind == K_TRACK; }
  int mos = 0;   // work limit (max_object_size) in force during the calls under test, never while the harness reads a value
  void limit(bool on) const { if (mos) for (int i = 1; i < AP_FUNID_SIZE; i++) { ap_funopt_t o = ap_manager_get_funopt(man, (ap_funid_t)i); o.max_object_size = on ? mos : 0; ap_manager_set_funopt(man, (ap_funid_t)i, &o); } }
};
static inline string libdir() { static string d; if (d.empty()) { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, 4095); b[k > 0 ? k : 0] = 0; d = b; d = d.substr(0, d.rfind('/')); } return d; }
static inline void* libopen(const string& l) {
  static std::map<string, void*> m; auto it = m.find(l); if (it != m.end()) return it->second;
  string p = libdir() + "/lib" + l + ".so"; void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); exit(3); } return m[l] = h; }
typedef ap_manager_t* (*alloc0)(void); typedef ap_manager_t* (*alloc1)(bool); typedef ap_manager_t* (*alloc2)(ap_manager_t*, ap_manager_t*);
static inline void* sym(const string& l, const char* s) { void* p = dlsym(libopen(l), s); if (!p) { fprintf(stderr, "no symbol %s in %s\n", s, l.c_str()); exit(3); } return p; }
static inline void set_algo(ap_manager_t* m, int a) { for (int i = 1; i < AP_FUNID_SIZE; i++) { ap_funopt_t o = ap_manager_get_funopt(m, (ap_funid_t)i); o.algorithm = a; o.flag_exact_wanted = true; o.flag_best_wanted = true; ap_manager_set_funopt(m, (ap_funid_t)i, &o); } }
// name: <family><num>[:strict|loose][:algo=N]
static inline Dom open_dom(const string& nm) {
  Dom d; d.name = nm; vector<string> p; { std::stringstream s(nm); string t; while (std::getline(s, t, ':')) p.push_back(t); }
  d.lib = p[0]; d.strict = false; d.algo = 0; for (size_t i = 1; i < p.size(); i++) { if (p[i] == "strict") d.strict = true; if (p[i].substr(0, 5) == "algo=") d.algo = atoi(p[i].c_str() + 5); if (p[i].substr(0, 4) == "mos=") d.mos = atoi(p[i].c_str() + 4); if (p[i] == "approx") APPROX = true; }
  auto has = [&](const char* s) { return d.lib.compare(0, strlen(s), s) == 0; };
  d.exactnum = d.lib.find("MPQ") != string::npos; d.sys = d.lib;
  if (has("box")) { d.kind = K_BOX; d.man = ((alloc0)sym(d.lib, "box_manager_alloc"))(); }
  else if (has("oct")) { d.kind = K_OCT; d.man = ((alloc0)sym(d.lib, "oct_manager_alloc"))(); }
  else if (has("pkeq")) { d.lib = "polka" + d.lib.substr(4); d.kind = K_EQ; d.man = ((alloc0)sym(d.lib, "pkeq_manager_alloc"))(); }
  else if (has("polka")) { d.kind = K_POLY; d.man = ((alloc1)sym(d.lib, "pk_manager_alloc"))(d.strict); }
  else if (has("pplpoly")) { d.lib = "ap_ppl"; d.kind = K_POLY; d.exactnum = true; d.man = ((alloc1)sym(d.lib, "ap_ppl_poly_manager_alloc"))(d.strict); }
  else if (has("pplgrid")) { d.lib = "ap_ppl"; d.kind = K_GRID; d.exactnum = true; d.man = ((alloc0)sym(d.lib, "ap_ppl_grid_manager_alloc"))(); }
  else if (has("pkgrid")) { d.lib = "ap_pkgrid"; d.kind = K_TRACK; d.exactnum = true; ap_manager_t* g = ((alloc0)sym("ap_ppl", "ap_ppl_grid_manager_alloc"))(); ap_manager_t* k = ((alloc1)sym("polkaMPQ", "pk_manager_alloc"))(d.strict); for (int f = 0; f < AP_EXC_SIZE; f++) { ap_manager_set_abort_if_exception(g, (ap_exc_t)f, false); ap_manager_set_abort_if_exception(k, (ap_exc_t)f, false); } d.man = ((alloc2)sym(d.lib, "ap_pkgrid_manager_alloc"))(k, g); ap_manager_free(g); ap_manager_free(k); }
  else if (has("t1p")) { d.kind = K_TRACK; d.man = ((alloc0)sym(d.lib, "t1p_manager_alloc"))(); }
  else if (has("avo")) { d.kind = K_TRACK; d.man = ((alloc0)sym(d.lib, "avo_manager_alloc"))(); }
  else if (has("fpp")) { d.kind = K_TRACK; d.man = ((alloc0)sym(d.lib, "fpp_manager_alloc"))(); }
  else { fprintf(stderr, "unknown domain %s\n", nm.c_str()); exit(3); }
  if (!d.man) { fprintf(stderr, "no manager for %s\n", nm.c_str()); exit(3); }
  if (d.algo) set_algo(d.man, d.algo);
  else for (int i = 1; i < AP_FUNID_SIZE; i++) { ap_funopt_t o = ap_manager_get_funopt(d.man, (ap_funid_t)i); o.flag_exact_wanted = true; o.flag_best_wanted = true; ap_manager_set_funopt(d.man, (ap_funid_t)i, &o); }
  for (int i = 0; i < AP_EXC_SIZE; i++) ap_manager_set_abort_if_exception(d.man, (ap_exc_t)i, false);
  for (size_t i = 1; i < p.size(); i++) if (p[i].substr(0, 4) == "amc=") { void* pk = ((void* (*)(ap_manager_t*))sym(d.lib, "pk_manager_get_internal"))(d.man); ((void (*)(void*, size_t))sym(d.lib, "pk_set_approximate_max_coeff_size"))(pk, atoi(p[i].c_str() + 4)); }
  return d;
}
struct Limited { const Dom& d; Limited(const Dom& d) : d(d) { d.limit(true); } ~Limited() { d.limit(false); } };
#endif
