// C15: set algebra on mesh sets, all pairs (and triples) of subsets.
#include "refmesh.hh"
using namespace ref;
typedef std::shared_ptr<Jali::MeshSet> SetP;
struct Snap { std::string n; VI o, g, a, ix; bool operator==(Snap const& b) const { return n == b.n && o == b.o && g == b.g && a == b.a && ix == b.ix; } };
static Snap snap(SetP s, int n) { Snap r; r.n = s->name(); r.o = s->entities<Entity_type::PARALLEL_OWNED>(); r.g = s->entities<Entity_type::PARALLEL_GHOST>(); r.a = s->entities<Entity_type::ALL>(); for (int i = 0; i < n; i++) r.ix.push_back(s->index_in_set(i)); return r; }
struct U { std::shared_ptr<RefMesh> m; Entity_kind kind; std::vector<Entity_type> t; VI own, gh; };
static SetP mk(U const& u, int mask, bool rev, bool desc, std::string const& name) {
  VI o, g; for (size_t i = 0; i < u.own.size(); i++) if (mask >> i & 1) o.push_back(u.own[i]);
  for (size_t i = 0; i < u.gh.size(); i++) if (mask >> (i + u.own.size()) & 1) g.push_back(u.gh[i]);
  if (desc) { std::reverse(o.begin(), o.end()); std::reverse(g.begin(), g.end()); }
  return std::make_shared<Jali::MeshSet>(name, *u.m, u.kind, o, g, rev);
}
static std::set<int> mem(SetP s) { auto const& v = s->entities<Entity_type::ALL>(); return std::set<int>(v.begin(), v.end()); }
// op: 0 union 1 intersect 2 subtract 3 complement
static void one(U const& u, int op, std::vector<SetP> const& a, int revs, bool temp, std::string const& cx) {
  vk::states();
  std::vector<Snap> before; for (auto s : a) before.push_back(snap(s, u.t.size()));
  int n0 = u.m->num_sets(); auto list0 = u.m->sets();
  SetP r; std::vector<SetP> arg = a;
  if (op == 0) r = temp ? Jali::merge(arg, true) : Jali::merge(arg); else if (op == 1) r = temp ? Jali::intersect(arg, true) : Jali::intersect(arg);
  else if (op == 2) { std::vector<SetP> rest(arg.begin() + 1, arg.end()); r = temp ? Jali::subtract(arg[0], rest, true) : Jali::subtract(arg[0], rest); } else r = temp ? Jali::complement(arg, true) : Jali::complement(arg);
  if (!vk::ok(r != nullptr, "no result", cx)) return;
  std::set<int> w = mem(a[0]);
  for (size_t i = 1; i < a.size(); i++) { std::set<int> b = mem(a[i]);
    if (op == 0 || op == 3) w.insert(b.begin(), b.end()); else if (op == 1) { std::set<int> c; for (int x : w) if (b.count(x)) c.insert(x); w = c; } else for (int x : b) w.erase(x); }
  VI wo, wg;
  for (size_t i = 0; i < u.t.size(); i++) if ((w.count(i) > 0) != (op == 3)) { if (u.t[i] == Entity_type::PARALLEL_OWNED) wo.push_back(i); if (u.t[i] == Entity_type::PARALLEL_GHOST) wg.push_back(i); }
  vk::eq(vk::sorted(r->entities<Entity_type::PARALLEL_OWNED>()), wo, "owned members", cx);
  vk::eq(vk::sorted(r->entities<Entity_type::PARALLEL_GHOST>()), wg, "ghost members", cx);
  VI wa = wo; wa.insert(wa.end(), wg.begin(), wg.end());
  auto const& L = r->entities<Entity_type::ALL>();
  vk::eq(vk::sorted(L), vk::sorted(wa), "members", cx);
  for (size_t i = 0; i < wo.size() && i < L.size(); i++) vk::ok(u.t[L[i]] == Entity_type::PARALLEL_OWNED, "full list does not start with the owned members", cx);
  vk::eq((int)r->num_entities(), (int)wa.size(), "count", cx);
  vk::ok(r->kind() == u.kind && &r->mesh() == u.m.get(), "kind or mesh of result", cx);
  // reverse map: as the arguments have it
  bool none = true; for (size_t i = 0; i < u.t.size(); i++) if (r->index_in_set(i) != -1) none = false;
  bool exact = true; std::vector<int> at(u.t.size(), -1); for (size_t i = L.size(); i-- > 0;) at[L[i]] = i; for (size_t i = 0; i < u.t.size(); i++) { int p = at[i]; if (r->index_in_set(i) != p) exact = false; }
  if (revs == 0) vk::ok(none, "reverse map not asked for", cx); else if (revs == 1) vk::ok(exact, "reverse map of result", cx); else vk::ok(none || exact, "reverse map of result", cx);
  bool isarg = false; for (auto s : a) if (s == r) isarg = true;
  vk::ok(!isarg || a.size() == 1, "result is one of the arguments", cx);
  for (size_t i = 0; i < a.size(); i++) vk::ok(before[i] == snap(a[i], u.t.size()), "argument changed", cx + " argument " + std::to_string(i));
  int grow = u.m->num_sets() - n0; auto const& list1 = u.m->sets(); int c = 0;
  for (auto s : list1) if (s == r) c++;
  if (temp) { vk::eq(grow, 0, "temporary result registered", cx); vk::eq(c, 0, "temporary result registered", cx); }
  else if (!isarg) { vk::eq(grow, 1, "number of sets registered", cx); vk::eq(c, 1, "result registered once", cx); }
  for (size_t i = 0; i < list0.size() && i < list1.size(); i++) vk::ok(list0[i] == list1[i], "other registered sets disturbed", cx);
}
static bool big(Entity_kind k) { return k != Entity_kind::CELL && k != Entity_kind::NODE && k != Entity_kind::FACE; }
static std::vector<Entity_type> types(Jali::Mesh const& m, Entity_kind k) { std::vector<Entity_type> t; int n = m.num_entities(k, Entity_type::ALL); for (int i = 0; i < n; i++) t.push_back(m.entity_get_type(k, i)); return t; }
VK_CHECK("C15", "exploration", "every pair of subsets of a universe of 3 owned and 3 ghost entities (every triple over 2+1, thorough 2+2; single arguments; an argument used twice), each listed upwards or downwards, four operations, temporary or registered, with reverse maps on all, none or the first argument; cells, nodes and faces (triples: all kinds) of meshes with interleaved ghosts and boundary ghosts; up to six arguments (residue classes, chunks, all, none) on meshes of 24 and 42 cells; up to four arguments of about 1000 of up to 137000 entities; a case is a mesh, kind, map choice and first subset, non-trivial if that is non-empty") {
  struct M { Desc d; VI g; };
  std::vector<M> ms = {{quads(3, 2), {0, 1, 0, 1, 0, 1}}, {hexes(3, 2, 1), {1, 0, 1, 0, 0, 1}}, {quads(3, 1), {}}};
  for (auto& m : ms) for (int b = 0; b < 2; b++) {
    Opt o; o.ghost = m.g; o.bghost = b; o.shared_owned = !b; Ref r = elaborate(m.d, o);
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER}) for (int revs = 0; revs < 3; revs++) {
      auto univ = [=](int no, int ng, Req q) { U u; u.m = make(r, big(k) ? Req::all() : q); u.kind = k; u.t = types(*u.m, k);
        for (size_t i = 0; i < u.t.size(); i++) { size_t e = (i * 7 + 3) % u.t.size(); if (u.t.size() % 7 == 0) e = u.t.size() - 1 - i;
          if (u.t[e] == Entity_type::PARALLEL_OWNED && (int)u.own.size() < no) u.own.push_back(e); if (u.t[e] == Entity_type::PARALLEL_GHOST && (int)u.gh.size() < ng) u.gh.push_back(e); }
        std::sort(u.own.begin(), u.own.end()); std::sort(u.gh.begin(), u.gh.end()); return u; };
      int nu = 3 + (m.g.size() ? 3 : 0);
      for (int A = 0; A < (1 << nu); A++) if (!big(k)) vk::run(r.name + " kind " + std::to_string((int)k) + " maps " + std::to_string(revs) + " A=" + std::to_string(A), [=] {
        if (!A) vk::trivial();
        U u = univ(3, 3, Req());
        for (int temp = 0; temp < 2; temp++) for (int da = 0; da < 2; da++) {
          SetP a = mk(u, A, revs > 0, da, "A");
          for (int op : {0, 1, 3}) one(u, op, {a}, revs > 0, temp, "single op " + std::to_string(op));
          one(u, 2, {a}, revs > 0, temp, "subtract nothing");
          for (int op = 0; op < 4; op++) one(u, op, {a, a}, revs > 0, temp, "same twice op " + std::to_string(op));
          for (int B = 0; B < (1 << nu); B++) for (int db = 0; db < 2; db++) { if (!vk::thorough && db == da && B % 2) continue;
            SetP bb = mk(u, B, revs == 1, db, "B");
            for (int op = 0; op < 4; op++) one(u, op, {a, bb}, revs, temp, "op " + std::to_string(op) + " B=" + std::to_string(B)); }
          if (vk::failed()) return;
        }
      });
      int n3 = 3 + (vk::thorough ? 1 : 0); if (m.g.empty()) n3 = 2;
      for (int A = 0; A < (1 << n3); A++) vk::run(r.name + " kind " + std::to_string((int)k) + " maps " + std::to_string(revs) + " triple A=" + std::to_string(A), [=] {
        if (!A) vk::trivial();
        U u = univ(2, vk::thorough ? 2 : 1, Req());
        for (int temp = 0; temp < 2; temp++) for (int B = 0; B < (1 << n3); B++) for (int C = 0; C < (1 << n3); C++) for (int op = 0; op < 4; op++)
          one(u, op, {mk(u, A, revs > 0, 0, "A"), mk(u, B, revs == 1, 1, "B"), mk(u, C, revs == 1, 0, "C")}, revs, temp, "op " + std::to_string(op) + " B=" + std::to_string(B) + " C=" + std::to_string(C));
      });
    }
  }
  // many entities, and up to six arguments: residue classes and chunks
  std::vector<M> bm = {{hexes(4, 3, 2), {}}, {quads(7, 6), {}}};
  for (size_t x = 0; x < bm.size(); x++) for (int b = 0; b < 2; b++) { int nc = bm[x].d.cells.size(); Opt o; o.ghost.assign(nc, 0); for (int i = 0; i < nc; i++) o.ghost[i] = x == 1 ? i > nc / 2 : i % 3 == 1; o.bghost = b; o.shared_owned = !b; Ref r = elaborate(bm[x].d, o);
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CORNER}) for (int revs = 0; revs < 3; revs++) vk::run(r.name + " kind " + std::to_string((int)k) + " maps " + std::to_string(revs) + " large", [=] {
      U u; u.m = make(r, big(k) ? Req::all() : Req()); u.kind = k; u.t = types(*u.m, k); int n = u.t.size();
      auto set = [&](std::function<bool(int)> in, bool rev, bool desc, std::string const& nm) { VI o, g; for (int i = 0; i < n; i++) { int e = desc ? n - 1 - i : i; if (!in(e)) continue; if (u.t[e] == Entity_type::PARALLEL_OWNED) o.push_back(e); if (u.t[e] == Entity_type::PARALLEL_GHOST) g.push_back(e); } return std::make_shared<Jali::MeshSet>(nm, *u.m, u.kind, o, g, rev); };
      std::vector<std::function<bool(int)>> fs; for (int mo : {2, 3, 5}) for (int q = 0; q < mo; q += mo - 1) fs.push_back([=](int e) { return e % mo == q; }); fs.push_back([=](int e) { return e < n / 2; }); fs.push_back([=](int e) { return e >= n / 3; }); fs.push_back([](int) { return true; }); fs.push_back([](int) { return false; }); fs.push_back([=](int e) { return e % 7 != 3; });
      int F = fs.size();
      for (int temp = 0; temp < 2; temp++) for (int len = 2; len <= 6; len++) for (int i = 0; i < F; i++) for (int st = 0; st < F; st++) { std::vector<SetP> a; std::string cx = "args"; for (int j = 0; j < len; j++) { int z = (i + j * st) % F; a.push_back(set(fs[z], revs == 1 || (revs == 2 && j == 0), (j + st) % 2, "A" + std::to_string(j))); cx += " " + std::to_string(z); }
        for (int op = 0; op < 4; op++) one(u, op, a, revs, temp, cx + " op " + std::to_string(op)); if (vk::failed()) return; } }); }
  // large identifiers
  for (auto& g : giants()) { Ref r = elaborate(g.d, g.o); for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CORNER}) for (int revs = 0; revs < 3; revs++) vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " kind " + std::to_string((int)k) + " maps " + std::to_string(revs) + " many entities", [=] {
    U u; u.m = make(r, big(k) ? Req::all() : Req()); u.kind = k; u.t = types(*u.m, k); int n = u.t.size();
    auto set = [&](int a, int b, int st, bool rev, bool desc) { VI o, gh; for (int i = a; i < b && i < n; i += st) { if (u.t[i] == Entity_type::PARALLEL_OWNED) o.push_back(i); if (u.t[i] == Entity_type::PARALLEL_GHOST) gh.push_back(i); } if (desc) { std::reverse(o.begin(), o.end()); std::reverse(gh.begin(), gh.end()); } return std::make_shared<Jali::MeshSet>("A", *u.m, k, o, gh, rev); };
    for (int temp = 0; temp < 2; temp++) { std::vector<SetP> s = {set(0, n, 89, revs > 0, 0), set(n - 900, n, 1, revs == 1, 1), set(n / 3, n, 2 + n / 1000, revs == 1, 0), set(std::min(32000, n / 2), 33600, 2, revs == 1, 1)};
      for (int op = 0; op < 4; op++) for (auto a : {std::vector<int>{0, 1}, {1, 0}, {0, 3}, {1, 2, 3}, {3, 2, 1, 0}}) { if (revs == 2 && a[0]) continue; if (op == 3 && a.size() == 3) continue; std::vector<SetP> A; for (int i : a) A.push_back(s[i]); vk::set_current("op " + std::to_string(op) + " " + vk::str(a)); one(u, op, A, revs, temp, ""); vk::beat(); if (vk::failed()) return; } } }); }
}
