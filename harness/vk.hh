// Enumeration kernel shared by all checks: deterministic case enumeration,
// sharding over processes, crash/hang isolation, counters, violation log.
#ifndef VK_HH
#define VK_HH
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <memory>
#include <algorithm>

namespace vk {
extern bool thorough;          // VERIF_TIER=thorough
// One case of the enumeration.  fn is executed when the case belongs to this
// shard (and matches --case, if given).  Case names must be unique.
void run(std::string const& name, std::function<void()> const& fn);
// Would the case be executed by this process?  (to avoid costly setup)
bool mine_next();
// Record that the property is violated in the current case.  `what` is the
// short stable key of the failing observation, detail is free text.
void fail(std::string const& what, std::string const& detail = "");
bool failed();                 // a failure was recorded in the current case
void trivial();                // current case is trivial by the check's rule
void count(char const* name, uint64_t n = 1);   // named counter
inline void states(uint64_t n = 1) { count("states", n); }
inline void transitions(uint64_t n = 1) { count("transitions", n); }
inline void traces(uint64_t n = 1) { count("traces_validated_against_impl", n); }
inline void cmp(uint64_t n = 1) { count("comparisons", n); }
void sample(std::string const& s);
void beat();                   // progress: resets the hang watchdog
void set_current(std::string const& s);  // refine name of the running case
                                         // (history) for crash reports

template <class T> std::string str(T const& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
template <class T> std::string str(std::vector<T> const& v) {
  std::ostringstream o; o.precision(17); o << "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) o << ","; o << str(v[i]); }
  o << "]"; return o.str();
}
inline std::string str(signed char const& c) { return std::to_string((int)c); }
template <class T, size_t N> std::string str(std::array<T, N> const& v) {
  return str(std::vector<T>(v.begin(), v.end()));
}
template <class T> std::string str(std::set<T> const& v) {
  return str(std::vector<T>(v.begin(), v.end()));
}
// equality check
template <class A, class B>
bool eq(A const& got, B const& want, std::string const& what, std::string const& ctx = "") {
  cmp();
  if (got == want) return true;
  fail(what, ctx + " got " + str(got) + " expected " + str(want));
  return false;
}
inline bool near(double a, double b, double scale = 1.0) {
  double s = std::max(std::max(std::fabs(a), std::fabs(b)), std::fabs(scale));
  return std::fabs(a - b) <= 1e-9 * s;    // false for NaN
}
inline bool feq(double got, double want, std::string const& what, std::string const& ctx = "", double scale = 1.0) {
  cmp();
  if (near(got, want, scale)) return true;
  fail(what, ctx + " got " + str(got) + " expected " + str(want));
  return false;
}
inline bool ok(bool c, std::string const& what, std::string const& ctx = "") {
  cmp();
  if (!c) fail(what, ctx);
  return c;
}
template <class T> std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }
// names that are easily taken for one another
inline std::vector<std::string> names() {
  std::string x(40, 'x'), y(300, 'y'), a(31, 'a');
  return {"a", "A", "a ", " a", "aa", "aaa", "", " ", "1", "01", "10", "-1", x + "1", x + "2", x, y + "1", y + "2", y, a, a + "b", a + "c", "a/b", "a_b", "a-b", "a.b", "box_1", "box_10", "Box_1", "none", "None", "all", "ALL", "NULL", "a\nb", "a\tb", "a\\b", "density", "densities", "Density", "\xc3\xbc", "\xc3\xbd", "CELL", "cell"}; }
}  // namespace vk

// each check defines these
extern char const* vk_id;
extern char const* vk_level;    // model_checking | exploration | fault_enumeration
extern char const* vk_rule;     // how cases are made and what is non-trivial
void vk_body();
#define VK_CHECK(ID, LEVEL, RULE)            \
  char const* vk_id = ID;                    \
  char const* vk_level = LEVEL;              \
  char const* vk_rule = RULE;                \
  void vk_body()
#endif
