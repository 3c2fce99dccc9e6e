// Model of environments: maps from names to types (0: integer, 1: real), and the helpers shared by the level-1 checks.
#ifndef MC_ENV_HH
#define MC_ENV_HH
#include "base.hh"
typedef std::map<string, int> Env;
static const char* NM[] = {"a", "a1", "ab", "b", ""};
static inline string es(const Env& e) { string s = "{"; for (auto& x : e) s += x.first + (x.second ? ":r " : ":i "); return s + "}"; }
static inline string ns(const vector<string>& v) { string s = "["; for (auto& x : v) s += x + " "; return s + "]"; }
static inline vector<string> lay(const Env& e) { vector<string> r; for (int t = 0; t < 2; t++) for (auto& x : e) if (x.second == t) r.push_back(x.first); return r; }
struct Vars { vector<char*> p; Vars(const vector<string>& v) { for (auto& s : v) p.push_back(strdup(s.c_str())); p.push_back(NULL); } ~Vars() { for (size_t i = 0; i + 1 < p.size(); i++) { if (p[i]) { memset(p[i], '?', strlen(p[i])); free(p[i]); } } } ap_var_t* a() { return (ap_var_t*)&p[0]; } };
static inline ap_environment_t* mk(const Env& e) { vector<string> i, r; for (auto& x : e) (x.second ? r : i).push_back(x.first); Vars vi(i), vr(r); return ap_environment_alloc(vi.a(), i.size(), vr.a(), r.size()); }
static inline vector<Env> envs(int n) { vector<Env> r; int N = 1; for (int i = 0; i < n; i++) N *= 3; for (int c = 0; c < N; c++) { Env e; int k = c; for (int i = 0; i < n; i++, k /= 3) if (k % 3) e[NM[i]] = k % 3 - 1; r.push_back(e); } return r; }
static inline size_t nint(const Env& e) { size_t k = 0; for (auto& x : e) k += !x.second; return k; }
static inline bool compat(const Env& a, const Env& b) { for (auto& x : a) { auto y = b.find(x.first); if (y != b.end() && y->second != x.second) return false; } return true; }
static inline Env uni(const Env& a, const Env& b) { Env r = a; r.insert(b.begin(), b.end()); return r; }
static inline bool sub(const Env& a, const Env& b) { for (auto& x : a) { auto y = b.find(x.first); if (y == b.end() || y->second != x.second) return false; } return true; }
static inline bool same_env(ap_environment_t* e, const Env& m) { if (!e) return false; vector<string> l = lay(m); if (e->intdim != nint(m) || e->intdim + e->realdim != l.size()) return false; for (size_t i = 0; i < l.size(); i++) if (l[i] != (char*)e->var_of_dim[i]) return false; return true; }
#endif
