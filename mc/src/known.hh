// Known findings (file named by MC_KNOWN: lines "glob<TAB>regex"): violations they describe go to buckets of their own.
#ifndef MC_KNOWN_HH
#define MC_KNOWN_HH
#include <cstdlib>
#include <fstream>
#include <regex>
#include <string>
#include <vector>
static inline bool glob_match(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') { for (;; s++) { if (glob_match(p + 1, s)) return true; if (!*s) return false; } }
  return *p == *s && glob_match(p + 1, s + 1);
}
static inline std::string known_bucket(const std::string& sig, const std::string& msg) {
  struct K { std::string g; std::regex r; }; static std::vector<K> ks; static bool init = false;
  if (!init) { init = true; if (const char* f = getenv("MC_KNOWN")) { std::ifstream in(f); std::string l; while (std::getline(in, l)) { size_t t = l.find('\t'); if (t != std::string::npos) ks.push_back({l.substr(0, t), std::regex(l.substr(t + 1))}); } } }
  for (size_t i = 0; i < ks.size(); i++) if (glob_match(ks[i].g.c_str(), sig.c_str()) && std::regex_search(msg, ks[i].r)) return "known" + std::to_string(i) + "|";
  return "";
}
#endif
