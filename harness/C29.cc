// C29: error policy and messages.  All histories of policy changes followed by
// an error raised from each place; all histories of message operations.
#include "C29.hh"
#include "vk.hh"
#include "LogicalRegion.hh"
#include "BoxRegion.hh"
#include "MeshFactory.hh"
#include <climits>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
SITE_DEF(A)
using namespace Exceptions;
static const int NSET = 6, NRAISE = 9;
static void setop(int k) { switch (k) { case 0: set_raise_A(); break; case 1: set_abort_A(); break; case 2: set_raise_B(); break; case 3: set_abort_B(); break; case 4: set_A(RAISE); break; case 5: set_B(ABORT); break; } }
static bool aborts(int k) { return k == 1 || k == 3 || k == 5; }
static char const* rn(int r) { static char const* n[] = {"message from main file","message from other file","own type from main file","own type from other file","time step cut from main file","time step cut from other file","library: logical region","library: box region","library: framework name"}; return n[r]; }
// 0: caught with right type and text; 10..: wrong
static int raise_at(int r) {
  try {
    switch (r) {
      case 0: throw_msg_A("a text"); break; case 1: throw_msg_B("b text"); break; case 2: throw_my_A(42); break; case 3: throw_my_B(43); break; case 4: throw_cut_A(); break; case 5: throw_cut_B(); break;
      case 6: { JaliGeometry::LogicalRegion l("l", 1, JaliGeometry::Bool_type::UNION, {"a"}); l.inside(JaliGeometry::Point(3)); break; }
      case 7: { JaliGeometry::BoxRegion b("bx", 1, JaliGeometry::Point(2), JaliGeometry::Point(3)); break; }
      case 8: Jali::framework_name(static_cast<Jali::MeshFramework_t>(77)); break;
    }
  } catch (Errors::Message const& m) { std::string t = m.what();
    if (r == 0) return t == "a text" ? 0 : 11; if (r == 1) return t == "b text" ? 0 : 11; return r >= 6 && !t.empty() ? 0 : 12; }
  catch (MyErr const& m) { return (r == 2 && m.code == 42) || (r == 3 && m.code == 43) ? 0 : 13; }
  catch (Errors::CutTimeStep const&) { return r == 4 || r == 5 ? 0 : 14; }
  catch (...) { return 15; }
  return 16;   // nothing raised
}
static void policy(std::vector<int> const& h) {
  bool ab = false; for (int k : h) ab = aborts(k);
  for (int r = 0; r < NRAISE; r++) {
    pid_t p = fork();
    if (p == 0) {
      signal(SIGABRT, SIG_DFL);
      bool cur = false;
      for (int k : h) { setop(k); cur = aborts(k); if ((get_A() == ABORT) != cur || (get_B() == ABORT) != cur) _exit(20); }
      if ((get_A() == ABORT) != cur || (get_B() == ABORT) != cur) _exit(20);
      // an earlier error under the raising policy must not disturb a later one
      if (!ab) { int c = raise_at((r + 3) % NRAISE); if (c) _exit(c); }
      _exit(raise_at(r));
    }
    int st = 0; waitpid(p, &st, 0); vk::beat(); vk::traces(); vk::transitions(h.size() + 1); vk::cmp();
    bool sig = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT; int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    std::string cx = std::string(rn(r)) + " after " + vk::str(h) + " status " + std::to_string(st);
    if (code == 20) vk::fail("policy read back differs from policy set", cx);
    else if (ab && !sig) vk::fail("error under the abort policy did not abort", cx);
    else if (!ab && sig) vk::fail("error under the raise policy aborted", cx);
    else if (!ab && code != 0) vk::fail(code == 16 ? "error was not raised" : "caught error has wrong type or text", cx);
  }
}
// ---------------------------------------------------------------- messages
static const int NM = 16;
static std::string g6(double d) { char b[64]; snprintf(b, 64, "%g", d); return b; }
static void mstep(int k, Errors::Message m[2], std::string s[2]) {
  using Errors::operator<<;
  switch (k) {
    case 0: m[0] << "lit"; s[0] += "lit"; break;
    case 1: m[0] << std::string("st\tr %d"); s[0] += "st\tr %d"; break;
    case 2: m[0] << INT_MIN; s[0] += "-2147483648"; break;
    case 3: m[0] << -1.2345678e-200; s[0] += g6(-1.2345678e-200); break;
    case 4: m[0].add_data(""); break;
    case 5: m[0].add_data(std::string("add")); s[0] += "add"; break;
    case 6: m[0] << "x" << 7 << 0.5 << std::string("y"); s[0] += "x70.5y"; break;
    case 7: m[1] = m[0]; s[1] = s[0]; break;
    case 8: std::swap(m[0], m[1]); std::swap(s[0], s[1]); break;
    case 9: { Errors::Message c(m[0]); c << "gone"; break; }
    case 10: { bool got = false; std::string t; try { Jali_throw(m[0]); } catch (Errors::Message& e) { got = true; t = e.what(); e << "caught"; } vk::ok(got, "message not caught by its type"); vk::eq(t, s[0], "text of caught message"); break; }
    case 11: { bool got = false; std::string t; try { Jali_throw(m[0]); } catch (Jali_exception& e) { got = true; t = e.what(); Errors::Message* p = dynamic_cast<Errors::Message*>(&e); if (p) { m[0] = *p; } else got = false; } vk::ok(got, "message not caught by its base type"); vk::eq(t, s[0], "text of caught message"); break; }
    case 12: { bool got = false; std::string t; try { try { Jali_throw(m[0]); } catch (Errors::Message& e) { Errors::Message o("outer: "); o << e.what(); Jali_throw(o); } } catch (std::exception& e) { got = true; t = e.what(); } vk::ok(got, "rethrown message not caught"); vk::eq(t, "outer: " + s[0], "text of rethrown message"); break; }
    case 13: { Errors::Message& r = m[0]; m[0] = r; m[0] << 0 << -5 << 1e10 << 123456.789; s[0] += "0-5" + g6(1e10) + g6(123456.789); break; }
    case 14: m[0] << m[0].what(); s[0] += s[0]; break;
    case 15: m[0] << std::string(m[1].what()) << m[1].what() + 1; { std::string t = s[1]; s[0] += t + t.substr(1); } break;
  }
}
VK_CHECK("C29", "model_checking", "model: the current policy; every history of up to 4 (thorough 5) policy changes through three interfaces from two translation units, then an error raised from each of nine places in a child process; messages: every history of up to 5 (thorough 6) of 16 append/copy/throw operations on two messages against two strings; texts of every length up to 1200 (thorough 5000) and up to 200 pieces") {
  int D = vk::thorough ? 5 : 4;
  std::function<void(std::vector<int>)> rec = [&](std::vector<int> h) {
    vk::run("policy " + vk::str(h), [h] { vk::states(); policy(h); });
    if ((int)h.size() == D) return;
    for (int k = 0; k < NSET; k++) { auto g = h; g.push_back(k); rec(g); }
  };
  rec({});
  int MD = vk::thorough ? 6 : 5;
  for (int a = 0; a < NM; a++) for (int b = 0; b < NM; b++) vk::run("message " + std::to_string(a) + "," + std::to_string(b), [=] {
    set_exception_behavior_raise();
    std::function<void(std::vector<int>)> go = [&](std::vector<int> h) {
      // replay from scratch
      Errors::Message m[2] = {Errors::Message("one"), Errors::Message(std::string("two"))}; std::string s[2] = {"one", "two"};
      for (int k : h) mstep(k, m, s);
      vk::states(); vk::transitions(); vk::traces();
      for (int i = 0; i < 2; i++) { vk::eq(std::string(m[i].what()), s[i], "text of message", "history " + vk::str(h)); Errors::Message c(m[i]); vk::eq(std::string(c.what()), s[i], "text of copy"); }
      vk::eq(std::string(Errors::Message().what()), "", "empty message");
      if ((int)h.size() == MD || vk::failed()) return;
      for (int k = 0; k < NM; k++) { h.push_back(k); go(h); h.pop_back(); }
    };
    go({a, b});
  });
  // texts of every length, pieces of every kind after one another
  int NL = vk::thorough ? 5000 : 1200;
  for (int b = 0; b < 8; b++) vk::run("message lengths " + std::to_string(b), [=] { set_exception_behavior_raise(); using Errors::operator<<;
    for (int n = b; n < NL; n += 8) { std::string t; for (int i = 0; i < n; i++) t += (char) (i % 255 + 1); Errors::Message a(t), e, l; e << t; l << t.c_str(); e << n << 0.125; l.add_data(t); l.add_data("end"); Errors::Message c(e), d; d = l; d << "more"; vk::states(); vk::transitions(9); vk::traces();
      vk::eq(std::string(a.what()), t, "text of message", "length " + std::to_string(n)); vk::eq(std::string(e.what()), t + std::to_string(n) + "0.125", "text of message", "length " + std::to_string(n)); vk::eq(std::string(c.what()), t + std::to_string(n) + "0.125", "text of copy", "length " + std::to_string(n)); vk::eq(std::string(l.what()), t + t + "end", "text of message", "length " + std::to_string(n)); vk::eq(std::string(d.what()), t + t + "endmore", "text of copy", "length " + std::to_string(n));
      try { Jali_throw(d); } catch (Errors::Message& x) { vk::eq(std::string(x.what()), t + t + "endmore", "text of caught message", "length " + std::to_string(n)); } }
    for (int n = b; n < 200; n += 8) { Errors::Message m; std::string w; for (int i = 0; i < n; i++) { m << i << ","; w += std::to_string(i) + ","; } vk::eq(std::string(m.what()), w, "text of a message of many pieces", std::to_string(n)); vk::states(); } });
}
