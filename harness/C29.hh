#include "errors.hh"
#include "exceptions.hh"
#include <string>
struct MyErr : public Exceptions::Jali_exception { int code; MyErr(int c) : code(c) {} const char* what() const throw() { return "mine"; } };
// the same operations from two translation units
#define SITE(N) \
  void set_raise_##N(); void set_abort_##N(); void set_##N(Exceptions::Exception_action); \
  Exceptions::Exception_action get_##N(); void throw_msg_##N(std::string const&); void throw_my_##N(int); void throw_cut_##N();
SITE(A) SITE(B)
#define SITE_DEF(N) \
  void set_raise_##N() { Exceptions::set_exception_behavior_raise(); } \
  void set_abort_##N() { Exceptions::set_exception_behavior_abort(); } \
  void set_##N(Exceptions::Exception_action a) { Exceptions::set_exception_behavior(a); } \
  Exceptions::Exception_action get_##N() { return Exceptions::exception_behavior(); } \
  void throw_msg_##N(std::string const& s) { Errors::Message m(s); Exceptions::Jali_throw(m); } \
  void throw_my_##N(int c) { Exceptions::Jali_throw(MyErr(c)); } \
  void throw_cut_##N() { Errors::CutTimeStep c; Exceptions::Jali_throw(c); }
