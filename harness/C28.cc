// C28: collective mesh creation with failures on any subset of simulated ranks
#include "tiles.hh"
#include "MeshFactory.hh"
#include "fakempi.hh"
#include <thread>
#ifdef VARIANT_MSTK
#include "Mesh_MSTK.hh"
namespace fakemstk { thread_local int fail = 0; thread_local int made = 0; }
static bool const MSTKIN = true;
static void setfail(int f) { fakemstk::fail = f; }
static bool isMstk(Jali::Mesh* m) { return dynamic_cast<Jali::Mesh_MSTK*>(m); }
#else
static bool const MSTKIN = false;
static void setfail(int) {}
static bool isMstk(Jali::Mesh*) { return false; }
#endif
using namespace ref;
typedef JaliGeometry::GeometricModel* GM;
static GM gms[4];
// what is wrong (or not) with the request of one rank
enum { OK, SIMPLE, GMOK, FAIL1, FAIL2, FAIL3, BADN, NEGN, BADBOX, REVBOX, BADGM, BADGM2, SIMPLE_BADGM, NLOC };
static char const* const LN[NLOC] = {"ok", "Simple", "model", "fails", "std exception", "out of memory", "no cells", "negative cells", "empty box", "reversed box", "model of wrong dimension", "model of other wrong dimension", "Simple, wrong model"};
enum { C3D, C2D, C1D, C1N, F2D, F3D, EXT, NCALL };
static char const* const CN[NCALL] = {"3D", "2D", "1D by nodes", "1D by count", "2D file", "3D file", "extract"};
static int const CD[NCALL] = {3, 2, 1, 1, 2, 3, 2};
// from AXIS on: the directions in a set (l / 4 + 1) are empty, reversed, or have no or -1 cells (l % 4)
enum { AXIS = 100 };
static std::string ln(int l) { static char const* k[] = {"empty", "reversed", "no cells", "negative cells"}; return l < NLOC ? LN[l] : std::string(k[(l - AXIS) % 4]) + " in directions " + std::to_string((l - AXIS) / 4 + 1); }
static bool applies(int call, int l) { if (l == OK || l == SIMPLE) return true; if (!MSTKIN && l >= FAIL1 && l <= FAIL3) return false; if (l == BADN || l == NEGN || l == BADBOX || l == REVBOX) return call <= C1N && !(call == C1D && l == NEGN); if (call == EXT && (l == GMOK || l == BADGM || l == BADGM2 || l == SIMPLE_BADGM)) return false; return true; }
static bool simple(int l) { return l == SIMPLE || l == SIMPLE_BADGM || (!MSTKIN && l != OK && l != GMOK && false); }
// can the request of this rank be met, with n ranks?
static bool can(int call, int l, int n, bool base_simple) { bool s = base_simple || simple(l); if (l >= FAIL1 && l <= FAIL3) { if (!s) return false; } else if (l >= BADN) return false; if (s) return n == 1 && (call == C3D || call == C1D || call == C1N); return MSTKIN && call != C1D && call != C1N; }
struct Out { int what; std::string msg; std::shared_ptr<Jali::Mesh> m; };   // 0 mesh, 1 error, 2 empty handle, 3 never returns, 4 other exception
static std::shared_ptr<Jali::Mesh> source() { static std::shared_ptr<Jali::Mesh> m = make(elaborate(quads(2, 1), Opt())); return m; }
static std::shared_ptr<Jali::Mesh> create(Jali::MeshFactory& f, int call, int l) {
  int n = l == BADN ? 0 : l == NEGN ? -2 : 2; double x = l == BADBOX ? 1 : l == REVBOX ? 0 : 3; int d = CD[call];
  f.geometric_model(l == GMOK ? gms[d] : l == BADGM || l == SIMPLE_BADGM ? gms[d % 3 + 1] : l == BADGM2 ? gms[(d + 1) % 3 + 1] : nullptr);
  if (l >= AXIS) { int m = (l - AXIS) / 4 + 1, w = (l - AXIS) % 4; double hi[3] = {3, 3, 3}; int c[3] = {2, 1, 2}; for (int k = 0; k < 3; k++) if (m >> k & 1) { if (w == 0) hi[k] = 1; if (w == 1) hi[k] = 0.5; if (w == 2) c[k] = 0; if (w == 3) c[k] = -1; } return call == C3D ? f(1, 1, 1, hi[0], hi[1], hi[2], c[0], c[1], c[2]) : call == C2D ? f(1, 1, hi[0], hi[1], c[0], c[1]) : f(1, hi[0], c[0]); }
  switch (call) { case C3D: return f(1, 1, 1, 2, 2, x, 2, n, 1); case C2D: return f(1, 1, 2, x, n, 2); case C1D: return f(l == BADN ? std::vector<double>{1} : l == REVBOX ? std::vector<double>{1, 0.5, 0} : l == BADBOX ? std::vector<double>{1, 1} : std::vector<double>{1, 2, 3}); case C1N: return f(1, x, n);
    case F2D: return f("x2d.exo"); case F3D: return f("x3d.exo"); default: return f(source(), {"A"}, Entity_kind::CELL, false, false); } }
static Out attempt(Jali::MeshFactory& f, int call, int l) { Out o; o.what = 2; setfail(l >= FAIL1 && l <= FAIL3 ? l - FAIL1 + 1 : 0);
  try { o.m = create(f, call, l); o.what = o.m ? 0 : 2; } catch (Errors::Message const& e) { o.what = 1; o.msg = e.what(); } catch (fakempi::CommBroken const&) { o.what = 3; } catch (std::exception const& e) { o.what = 4; o.msg = e.what(); }
  setfail(0); return o; }
static char const* const ON[] = {"mesh", "error", "empty handle", "never returns", "other exception"};
static void judge(std::vector<Out> const& o, std::vector<int> const& ls, int call, bool bs, bool broken, std::string const& diag, std::string const& cx) {
  int n = o.size(); bool want = true; for (int l : ls) want = want && can(call, l, n, bs); std::string s; for (int r = 0; r < n; r++) s += std::string(r ? ", " : "") + ON[o[r].what]; std::string c = cx + " -> " + s;
  vk::cmp(); if (broken) { vk::fail("ranks do not take part in the same collective operations", c + ": " + diag); return; }
  for (int r = 0; r < n; r++) { if (!vk::ok(o[r].what != 3, "creation never returns", c) || !vk::ok(o[r].what != 2, "empty mesh handle returned", c)) return; if (!vk::ok(o[r].what == (want ? 0 : 1), want ? "creation failed although every rank could create its mesh" : o[r].what == 0 ? "a rank got a mesh although creation failed on another or is not supported" : "failure reported by something else than an error", c)) return;
    if (want) vk::ok(isMstk(o[r].m.get()) == !(bs || simple(ls[r])), "mesh of another framework", c); else vk::ok(!o[r].msg.empty(), "error without a message", c); } }
static void sim(int call, std::vector<int> const& ls, int then, bool bs) {
  int n = ls.size(); std::string cx = std::string(CN[call]) + ":"; for (int l : ls) cx += " " + ln(l) + ","; if (then >= 0) cx += std::string(" then ") + CN[then]; vk::set_current(cx); vk::beat();
  std::vector<Out> o(n), o2(n); std::vector<int> oks(n, OK); source(); fakempi::begin(n); std::vector<std::thread> t;
  for (int r = 0; r < n; r++) t.push_back(std::thread([&, r] { fakempi::enter(r); { Jali::MeshFactory f(MPI_COMM_WORLD); if (bs || simple(ls[r])) f.framework(Jali::Simple); o[r] = attempt(f, call, ls[r]); if (then >= 0 && o[r].what != 3) { if (simple(ls[r]) && !bs) f.reset_options(); o2[r] = attempt(f, then, OK); } } fakempi::leave(); }));
  for (auto& x : t) x.join(); std::string diag; bool b = fakempi::broken(&diag); bool first = true; for (auto& x : o) if (x.what == 3) first = false; vk::count("schedules");
  if (then < 0 || !first) judge(o, ls, call, bs, b, diag, cx); else { judge(o, ls, call, bs, false, "", cx); if (!vk::failed()) judge(o2, oks, then, bs, b, diag, cx + " (second)"); }
  // ranks must agree on the sequence of collective operations
  for (int r = 1; r < n && !vk::failed(); r++) vk::ok(fakempi::trace(r) == fakempi::trace(0), "ranks take part in different collective operations", cx);
  fakempi::end(); }
// several groups of ranks, each with its own communicator, factory and request; ranks of color -1 make nothing
static void simgroups(std::vector<int> const& calls, std::vector<int> const& ls, std::vector<int> const& color, bool bs, bool self) {
  int n = ls.size(); std::string cx = self ? "own communicator:" : "groups:"; for (int r = 0; r < n; r++) cx += " " + std::to_string(color[r]) + "/" + (color[r] < 0 ? "-" : std::string(CN[calls[color[r]]]) + "/" + ln(ls[r])) + ","; vk::set_current(cx); vk::beat();
  std::vector<Out> o(n); std::vector<char> comm(n, 1); source(); fakempi::begin(n, color); std::vector<std::thread> t;
  for (int r = 0; r < n; r++) t.push_back(std::thread([&, r] { fakempi::enter(r); if (color[r] >= 0) { MPI_Comm c = self ? MPI_COMM_SELF : fakempi::group(color[r]); int call = calls[color[r]]; Jali::MeshFactory f(c); if (bs || simple(ls[r])) f.framework(Jali::Simple); o[r] = attempt(f, call, ls[r]); if (o[r].m && call != EXT) comm[r] = o[r].m->get_comm() == c; } fakempi::leave(); }));
  for (auto& x : t) x.join(); std::string diag; bool b = fakempi::broken(&diag); vk::count("schedules");
  for (size_t g = 0; g < calls.size() && !vk::failed(); g++) { std::vector<Out> go; std::vector<int> gl; for (int r = 0; r < n; r++) if (color[r] == (int)g) { go.push_back(o[r]); gl.push_back(ls[r]); vk::ok(comm[r], "mesh on another communicator than that of the factory", cx); } if (!gl.empty()) judge(go, gl, calls[g], bs, b, diag, cx + " group " + std::to_string(g)); }
  for (int r = 1; r < n && !vk::failed(); r++) for (int q = 0; q < r; q++) if (color[r] >= 0 && color[r] == color[q]) vk::ok(fakempi::trace(r) == fakempi::trace(q), "ranks take part in different collective operations", cx);
  fakempi::end(); }
static void tables() {
  using namespace Jali; vk::ok(framework_available(Simple), "Simple framework not available"); vk::eq(framework_available(MSTK), MSTKIN, "MSTK framework available"); vk::ok(!framework_available(MOAB) && !framework_available(STKMESH), "a framework that is not supported is available"); for (int f : {0, 5, 99}) vk::ok(!framework_available((MeshFramework_t)f), "an unknown framework is available");
  for (int f = 1; f <= 4; f++) { Jali::MeshFactory mf(MPI_COMM_WORLD); auto before = mf.framework(); bool th = false; try { mf.framework((MeshFramework_t)f); } catch (Errors::Message const&) { th = true; } vk::eq(th, !framework_available((MeshFramework_t)f), "choosing a framework", framework_name((MeshFramework_t)f)); vk::ok(mf.framework() == (th ? before : (MeshFramework_t)f), "framework after choosing it", framework_name((MeshFramework_t)f)); }
  for (int d = -1; d < 6; d++) for (int p = 0; p < 2; p++) { vk::eq(framework_generates(Simple, p, d), !p && (d == 1 || d == 3), "Simple generates"); vk::eq(framework_extracts(Simple, p, d), false, "Simple extracts"); if (MSTKIN) { vk::eq(framework_generates(MSTK, p, d), d == 2 || d == 3, "MSTK generates"); vk::eq(framework_extracts(MSTK, p, d), d == 2 || d == 3, "MSTK extracts"); } }
  for (int p = 0; p < 2; p++) for (int f = 1; f <= 3; f++) { vk::eq(framework_reads(Simple, p, (MeshFormat_t)f), false, "Simple reads"); if (MSTKIN) vk::eq(framework_reads(MSTK, p, (MeshFormat_t)f), f == ExodusII, "MSTK reads"); }
  for (int f = 0; f < 5; f++) for (int p = 0; p < 2; p++) if (f == 0) { vk::ok(!framework_generates((MeshFramework_t)f, p, 3) && !framework_reads((MeshFramework_t)f, p, ExodusII) && !framework_extracts((MeshFramework_t)f, p, 3), "an unknown framework supports something"); } }
VK_CHECK("C28", "fault_enumeration", "every assignment of a local outcome (valid request, valid request with a model, framework without parallel support, three kinds of failure inside the framework, empty or negative cell counts, empty or reversed box, models of wrong dimensions) to each of 1 to 3 (thorough: 4) ranks, and to one of or every second of up to 12 ranks, for every creation call, alone and followed by a second creation; every partition of 1 to 3 ranks into groups with communicators of their own and idle ranks, the groups making the same or different calls, each rank with one of seven outcomes; every set of directions of a box empty, reversed or without cells on every subset of up to 3 ranks; the real factory runs on one thread per rank over a communicator that matches collective operations and detects ranks left waiting; with the framework tables; built as the project is built here and with a stand-in for the external framework; assignments that do not apply to a call are trivial") {
  std::string V = MSTKIN ? "mstk stand-in: " : "as built: "; for (int d = 1; d < 4; d++) if (!gms[d]) gms[d] = new JaliGeometry::GeometricModel(d, std::vector<JaliGeometry::RegionPtr>());
  vk::run(V + "framework tables", [] { tables(); });
  for (int bs = 0; bs < 2; bs++) for (int call = 0; call < NCALL; call++) for (int n = 1; n <= (vk::thorough ? 4 : 3); n++) for (int l0 = 0; l0 < NLOC; l0++) { if (!applies(call, l0)) continue; if (bs && simple(l0)) continue;
    vk::run(V + (bs ? "Simple, " : "default framework, ") + CN[call] + " " + std::to_string(n) + " ranks, first " + LN[l0], [=] { std::vector<int> ls = {l0};
      std::function<void()> rec = [&] { if (vk::failed()) return; if ((int)ls.size() == n) { sim(call, ls, -1, bs); if (n < 3 || vk::thorough) for (int t = 0; t < NCALL && !vk::failed(); t++) sim(call, ls, t, bs); return; } for (int l = 0; l < NLOC; l++) { if (!applies(call, l) || (bs && simple(l))) continue; ls.push_back(l); rec(); ls.pop_back(); } };
      rec(); }); }
  for (int bs = 0; bs < 2; bs++) for (int call : {C3D, C2D, C1N}) vk::run(V + (bs ? "Simple, " : "default framework, ") + CN[call] + " wrong in some directions", [=] { for (int k = 0; k < (1 << CD[call]) - 1; k++) for (int w = 0; w < 4; w++) for (int n = 1; n < 4; n++) for (int m = 1; m < (1 << n); m++) { std::vector<int> ls(n, OK); for (int r = 0; r < n; r++) if (m >> r & 1) ls[r] = AXIS + 4 * k + w; sim(call, ls, n < 3 ? call : -1, bs); if (vk::failed()) return; } });
  // groups of ranks with communicators of their own: every partition of the ranks into groups, with idle ranks
  for (int bs = 0; bs < 2; bs++) for (int call = 0; call < NCALL; call++) for (int other = 0; other < NCALL; other++) { if (other != call && !vk::thorough && other != (call + 1) % NCALL && other != C3D) continue; vk::run(V + (bs ? "Simple, " : "default framework, ") + CN[call] + " and " + CN[other] + " in groups", [=] {
      for (int n = 1; n <= 3; n++) { std::vector<int> col(n, -1);
        std::function<void(int, int)> rec = [&](int r, int m) { if (vk::failed()) return;
          if (r == n) { if (!m) return; std::vector<int> calls(m, other); calls[0] = call; bool self = m == n; for (int c : col) self = self && c >= 0; std::vector<int> ls(n, OK);
            std::function<void(int)> as = [&](int k) { if (vk::failed()) return; if (k == n) { simgroups(calls, ls, col, bs, false); if (self) simgroups(calls, ls, col, bs, true); return; } if (col[k] < 0) { as(k + 1); return; }
              for (int l : {(int)OK, (int)FAIL1, (int)FAIL2, (int)BADN, (int)BADBOX, (int)BADGM, (int)SIMPLE}) { if (!applies(calls[col[k]], l) || (bs && simple(l))) continue; ls[k] = l; as(k + 1); } ls[k] = OK; };
            as(0); return; }
          for (int c = -1; c <= m; c++) { col[r] = c; rec(r + 1, c == m ? m + 1 : m); } col[r] = -1; };
        rec(0, 0); } }); }
  // many ranks: one rank (each in turn) or every second one differs from the rest
  for (int call = 0; call < NCALL; call++) for (int n : {4, 5, 6, 8, 12}) vk::run(V + CN[call] + " " + std::to_string(n) + " ranks, one or every second differs", [=] { for (int a = 0; a < NLOC; a++) if (applies(call, a)) for (int b = 0; b < NLOC; b++) { if (!applies(call, b) || a == b || (b != OK && a != OK && a != BADN && a != BADGM && !vk::thorough)) continue;
      for (int r = 0; r <= n; r++) { std::vector<int> ls(n, b); if (r < n) ls[r] = a; else for (int i = 0; i < n; i += 2) ls[i] = a; sim(call, ls, r == n || n > 6 ? -1 : call, false); if (vk::failed()) return; } } });
}
