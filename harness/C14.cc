// C14: editing histories of mesh sets.  Breadth-first search over all
// reachable states of a real MeshSet (lists and reverse map), to a fixpoint,
// against mathematical sets.
#include "refmesh.hh"
#include <deque>
using namespace ref;
typedef std::shared_ptr<Jali::MeshSet> SetP;
struct U { std::shared_ptr<RefMesh> m; Entity_kind kind; VI own, gh, other; int nall; };
static VI state(SetP s, U const& u) {
  VI k; auto add = [&](VI const& v) { k.push_back(-9); k.insert(k.end(), v.begin(), v.end()); };
  add(s->entities<Entity_type::PARALLEL_OWNED>()); add(s->entities<Entity_type::PARALLEL_GHOST>()); add(s->entities<Entity_type::ALL>());
  k.push_back(-9); for (int i = 0; i < u.nall; i++) k.push_back(s->index_in_set(i));
  return k;
}
static void check(SetP s, std::set<int> const& M, U const& u, bool rev, std::string const& cx) {
  VI ow, gh; for (int e : M) (std::find(u.own.begin(), u.own.end(), e) != u.own.end() ? ow : gh).push_back(e);
  VI all(M.begin(), M.end());
  vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_OWNED>()), ow, "owned entities", cx);
  vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_GHOST>()), gh, "ghost entities", cx);
  auto const& L = s->entities<Entity_type::ALL>();
  vk::eq(vk::sorted(L), all, "all entities", cx);
  vk::eq((int)s->entities<Entity_type::BOUNDARY_GHOST>().size(), 0, "boundary ghosts listed", cx);
  vk::eq((int)s->num_entities(Entity_type::PARALLEL_OWNED), (int)ow.size(), "owned count", cx);
  vk::eq((int)s->num_entities(Entity_type::PARALLEL_GHOST), (int)gh.size(), "ghost count", cx);
  vk::eq((int)s->num_entities(Entity_type::ALL), (int)all.size(), "count", cx);
  vk::eq((int)s->num_entities(), (int)all.size(), "default count", cx);
  vk::eq((int)s->num_entities(u.kind, Entity_type::ALL), (int)all.size(), "count by kind", cx);
  vk::eq((int)s->num_entities(u.kind, Entity_type::PARALLEL_GHOST), (int)gh.size(), "ghost count by kind", cx);
  for (size_t i = 0; i < ow.size() && i < L.size(); i++) if (!vk::ok(std::find(ow.begin(), ow.end(), L[i]) != ow.end(), "full list does not start with the owned entities", cx)) break;
  for (int e = 0; e < u.nall; e++) {
    int want = -1;
    if (rev) { auto it = std::find(L.begin(), L.end(), e); if (it != L.end()) want = it - L.begin(); }
    if (!vk::eq((int)s->index_in_set(e), want, "position of entity in set", cx + " entity " + std::to_string(e) + " list " + vk::str(L))) break;
  }
  vk::ok(s->kind() == u.kind && s->name() == "the set" && &s->mesh() == u.m.get(), "name, kind or mesh changed", cx);
}
// 4 to 6: remove the entities of one of the set's own lists, handing over that very list; 7: an entry of its own full list
struct Op { int k; VI a; std::string str() const { return std::string(k == 0 ? "add" : k == 1 ? "rem" : k == 2 ? "adds" : k == 3 ? "rems" : k == 7 ? "rem own entry " : "rems own list " + std::to_string(k - 4)) + vk::str(a); } };
static void apply(SetP s, std::set<int>& M, U const& u, Op const& o) {
  VI a = o.a;
  if (o.k >= 4) {
    auto const& L = o.k == 4 ? s->entities<Entity_type::PARALLEL_OWNED>() : o.k == 5 ? s->entities<Entity_type::PARALLEL_GHOST>() : s->entities<Entity_type::ALL>();
    if (o.k == 7) { if (a[0] < (int)L.size()) { int e = L[a[0]]; s->rem_entity(L[a[0]]); M.erase(e); } } else { VI x(L.begin(), L.end()); s->rem_entities(L); for (int e : x) M.erase(e); }
    return;
  }
  if (o.k == 0) s->add_entity(a[0]); else if (o.k == 1) s->rem_entity(a[0]); else if (o.k == 2) s->add_entities(a); else s->rem_entities(a);
  for (int e : a) if (o.k % 2) M.erase(e); else if (std::find(u.other.begin(), u.other.end(), e) == u.other.end()) M.insert(e);
}
static void subsets(VI const& v, std::vector<VI>& out, int maxn) {
  for (int m = 1; m < (1 << v.size()); m++) if (__builtin_popcount(m) <= maxn) { VI s; for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) s.push_back(v[i]); out.push_back(s); if (s.size() > 1) out.push_back(VI(s.rbegin(), s.rend())); }
}
static std::vector<Op> ops(std::set<int> const& M, U const& u) {
  std::vector<Op> o; VI in(M.begin(), M.end()), out, valid = u.own; valid.insert(valid.end(), u.gh.begin(), u.gh.end());
  for (int e : valid) if (!M.count(e)) out.push_back(e);
  for (int e : out) o.push_back({0, {e}});
  for (int e : valid) o.push_back({1, {e}});
  for (int e : u.other) { o.push_back({0, {e}}); o.push_back({1, {e}}); }
  int mx = vk::thorough ? 9 : 3;
  std::vector<VI> s; subsets(out, s, mx); s.push_back(VI());
  if (u.other.size()) { VI b = out; b.insert(b.begin() + b.size() / 2, u.other[0]); s.push_back(b); s.push_back({u.other[0]}); }
  for (auto& v : s) o.push_back({2, v});
  s.clear(); subsets(in, s, mx); s.push_back(VI()); if (out.size()) { VI b = in; b.insert(b.begin() + b.size() / 2, out[0]); s.push_back(b); s.push_back({out.back()}); }
  if (in.size()) s.push_back({in[0], in[0]});
  if (in.size() > 1) s.push_back({in[1], in[0], in[1]});
  if (u.other.size() && in.size()) s.push_back({u.other[0], in.back()});
  for (auto& v : s) o.push_back({3, v});
  for (int k : {4, 5, 6}) o.push_back({k, {}});
  for (int i = 0; i < (int)in.size(); i++) o.push_back({7, {i}});
  return o;
}
static void explore(U const& u, bool rev, VI const& io, VI const& ig) {
  SetP s0 = rev ? std::make_shared<Jali::MeshSet>("the set", *u.m, u.kind, io, ig) : std::make_shared<Jali::MeshSet>("the set", *u.m, u.kind, io, ig, false);
  if (rev) { SetP d = Jali::make_meshset("by default", *u.m, u.kind, io, ig); for (int e : d->entities()) vk::ok(d->index_in_set(e) >= 0, "entity of a set made with the defaults has no position", std::to_string(e)); }
  std::set<int> M0(io.begin(), io.end()); M0.insert(ig.begin(), ig.end());
  struct N { SetP s; std::set<int> M; std::string h; int d; };
  std::map<VI, int> seen; std::deque<N> q;
  check(s0, M0, u, rev, "initial");
  q.push_back({s0, M0, "", 0}); seen[state(s0, u)] = 1; vk::states();
  size_t lim = vk::thorough ? 40000 : 4000;
  while (!q.empty() && !vk::failed()) {
    N n = q.front(); q.pop_front(); vk::beat();
    for (auto& o : ops(n.M, u)) {
      SetP c = std::make_shared<Jali::MeshSet>(*n.s); std::set<int> M = n.M; VI before = state(n.s, u);
      std::string h = n.h + " " + o.str(); vk::set_current(h);
      apply(c, M, u, o); vk::transitions(); vk::traces();
      check(c, M, u, rev, "");
      vk::ok(state(n.s, u) == before, "copy is not independent", "");
      if (vk::failed()) return;
      VI k = state(c, u);
      if (seen.size() < lim && !seen.count(k)) { seen[k] = 1; vk::states(); q.push_back({c, M, n.d > 12 ? "..." : h, n.d + 1}); }
    }
  }
  if (seen.size() >= lim) vk::count("capped_searches");
  // emptying
  SetP e = std::make_shared<Jali::MeshSet>("the set", *u.m, u.kind, u.own, u.gh, rev); e->clear();
  vk::eq((int)e->num_entities(), 0, "not empty after clear", ""); vk::eq((int)e->entities<Entity_type::PARALLEL_OWNED>().size() + (int)e->entities<Entity_type::PARALLEL_GHOST>().size(), 0, "not empty after clear", "");
  for (int i = 0; i < u.nall; i++) vk::eq((int)e->index_in_set(i), -1, "in set after clear", "");
}
static std::vector<Entity_type> types(Jali::Mesh const& m, Entity_kind k) { std::vector<Entity_type> t; int n = m.num_entities(k, Entity_type::ALL); for (int i = 0; i < n; i++) t.push_back(m.entity_get_type(k, i)); return t; }
// long histories on sets of many entities
static void lengthy(U const& u, bool rev) {
  VI all = u.own; all.insert(all.end(), u.gh.begin(), u.gh.end()); int n = all.size();
  auto fresh = [&](VI const& o, VI const& g) { return std::make_shared<Jali::MeshSet>("the set", *u.m, u.kind, o, g, rev); };
  auto start = [&](int w, std::set<int>& M) { M.clear(); if (w) M.insert(all.begin(), all.end()); return w ? fresh(u.own, u.gh) : fresh(VI(), VI()); };
  auto step = [&](SetP s, std::set<int>& M, Op o) { apply(s, M, u, o); vk::transitions(); check(s, M, u, rev, o.str()); };
  // one by one in four orders, in and out again in four orders
  auto order = [&](int w) { VI v; for (int i = 0; i < n; i++) v.push_back(w == 0 ? all[i] : w == 1 ? all[n - 1 - i] : w == 2 ? all[i % 2 ? n - 1 - i / 2 : i / 2] : all[(i * 17 + 5) % n]); if (w == 3 && n % 17 == 0) v = all; return v; };
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { std::set<int> M; SetP s = start(0, M); vk::set_current("orders " + vk::str(a) + vk::str(b)); for (int e : order(a)) step(s, M, {0, {e}}); for (int e : order(b)) step(s, M, {1, {e}}); vk::traces(); if (vk::failed()) return; }
  // every single entity out and in of the full set, in and out of the empty one
  for (int e : all) { std::set<int> M; SetP s = start(1, M); vk::set_current("out and in " + vk::str(e)); step(s, M, {1, {e}}); step(s, M, {0, {e}}); s = start(0, M); step(s, M, {0, {e}}); { VI y; for (int i : all) if (i != e) y.push_back(i); step(s, M, {2, y}); } vk::traces(); vk::states(); if (vk::failed()) return; }
  // residue classes and chunks in bulk
  for (int mo : {2, 3, 5, 9}) for (int r = 0; r < mo; r++) for (int rv = 0; rv < 2; rv++) { VI k, ch; for (int i = r; i < n; i += mo) k.push_back(all[i]); for (int i = r * n / mo; i < (r + 1) * n / mo; i++) ch.push_back(all[i]); if (rv) { std::reverse(k.begin(), k.end()); std::reverse(ch.begin(), ch.end()); }
    for (auto& x : {k, ch}) { std::set<int> M; SetP s = start(1, M); vk::set_current("bulk " + vk::str(x)); step(s, M, {3, x}); step(s, M, {2, x}); SetP e = start(0, M); step(e, M, {2, x}); VI y; for (int i : all) if (!M.count(i)) y.push_back(i); step(e, M, {2, y}); step(e, M, {3, x}); vk::traces(); vk::states(); } if (vk::failed()) return; }
}
// sets of thousands of entities with large identifiers
static void giant(Ref const& r, Entity_kind k, bool rev) {
  auto m = make(r, k == Entity_kind::CELL || k == Entity_kind::NODE || k == Entity_kind::FACE ? Req() : Req::all()); auto t = types(*m, k); int n = t.size(); auto O = Entity_type::PARALLEL_OWNED, G = Entity_type::PARALLEL_GHOST;
  auto pick = [&](int a, int b, int st) { VI v; for (int i = a; i < b && i < n; i += st) if (t[i] == O || t[i] == G) v.push_back(i); return v; };
  VI s0 = pick(0, n, 97), io, ig; for (int e : s0) (t[e] == O ? io : ig).push_back(e); auto s = std::make_shared<Jali::MeshSet>("the set", *m, k, io, ig, rev); std::set<int> M(s0.begin(), s0.end());
  auto look = [&](std::string const& cx) { vk::states(); vk::beat(); VI ow, gh; for (int e : M) (t[e] == O ? ow : gh).push_back(e); VI all(M.begin(), M.end()); auto const& L = s->entities<Entity_type::ALL>();
    vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_OWNED>()), ow, "owned entities", cx); vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_GHOST>()), gh, "ghost entities", cx); if (!vk::eq(vk::sorted(L), all, "all entities", cx)) return;
    vk::eq((int)s->num_entities(), (int)all.size(), "count", cx); for (size_t i = 0; i < ow.size(); i++) if (t[L[i]] != O) { vk::fail("full list does not start with the owned entities", cx); break; }
    std::vector<int> at(n, -1); if (rev) for (size_t i = 0; i < L.size(); i++) at[L[i]] = i; for (int e = 0; e < n; e++) if (!vk::eq((int)s->index_in_set(e), at[e], "position of entity in set", cx + " entity " + std::to_string(e))) break; };
  auto op = [&](int w, VI a, std::string const& cx) { Op o{w, a}; vk::set_current(cx); if (w == 0) s->add_entity(a[0]); else if (w == 1) s->rem_entity(a[0]); else if (w == 2) s->add_entities(a); else s->rem_entities(a); for (int e : a) if (w % 2) M.erase(e); else if (t[e] == O || t[e] == G) M.insert(e); vk::transitions(); look(cx); return !vk::failed(); };
  auto out = [&](VI v) { VI x; for (int e : v) if (!M.count(e)) x.push_back(e); return x; };
  look("initial"); VI z = out(pick(n - 1200, n, 1)), y = out(pick(32000, 33600, 1)), x = out(pick(n / 2, n / 2 + 3000, 7)); std::reverse(y.begin(), y.end());
  if (vk::failed() || !op(2, z, "add the last") || !op(2, out(y), "add around 32768") || !op(2, out(x), "add in the middle")) return;
  VI last = pick(n - 4, n, 1); for (int e : last) if (!op(1, {e}, "remove " + std::to_string(e))) return; for (int e : VI(last.rbegin(), last.rend())) if (!op(0, {e}, "add " + std::to_string(e))) return;
  for (int e : {32767, 32768, 65535, 65536}) if (e < n && (t[e] == O || t[e] == G)) { bool in = M.count(e); if (!op(in ? 1 : 0, {e}, "toggle " + std::to_string(e)) || !op(in ? 0 : 1, {e}, "toggle back " + std::to_string(e))) return; }
  if (!op(3, pick(0, n, 194), "remove every other") || !op(3, z, "remove the last") || !op(2, out(pick(0, n, 101)), "add every 101st") || !op(3, y, "remove around 32768")) return;
  op(3, VI(M.begin(), M.end()), "remove all"); op(2, pick(n - 70, n, 1), "again"); vk::traces(); }
VK_CHECK("C14", "model_checking", "breadth-first search to a fixpoint (cap reported as capped_searches) over the states (three lists and reverse map) of a real mesh set over a universe of up to 3+3 (thorough 4+3) owned and ghost entities and a boundary ghost; operations: add/remove of one entity, bulk add and remove of every subset up to 3 (thorough any) in both orders, with absent, repeated and inadmissible members, removal of the set's own lists handed over as they are; all seven kinds, with and without reverse map, from every start set; long histories (one by one in 16 pairs of orders, each entity out and in, residue classes and chunks in bulk) on sets of all entities of meshes of 20 to 42 cells; a history on sets of up to 4000 of up to 270000 entities; oracle: mathematical sets; a case is a mesh, kind, map choice and start set") {
  struct M { Desc d; VI g; };
  std::vector<M> ms = {{quads(3, 2), {0, 1, 0, 1, 0, 1}}, {quads(3, 2), {1, 1, 1, 0, 0, 0}}, {hexes(2, 2, 1), {0, 0, 1, 0}}, {quads(2, 2), {}}};
  int no = vk::thorough ? 4 : 3;
  for (auto& m : ms) for (int b = 0; b < 2; b++) {
    Opt o; o.ghost = m.g; o.bghost = b; o.shared_owned = !b;
    Ref r = elaborate(m.d, o);
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER}) for (int rev = 0; rev < 2; rev++)
      for (int init = 0; init < 4; init++) if (!(k == Entity_kind::EDGE || k >= Entity_kind::SIDE && k <= Entity_kind::CORNER) || init == 1 || vk::thorough)
        vk::run(r.name + " kind " + std::to_string((int)k) + (rev ? " map" : "") + " init " + std::to_string(init), [=] {
          U u; u.m = make(r, k == Entity_kind::CELL || k == Entity_kind::NODE || k == Entity_kind::FACE ? Req() : Req::all()); u.kind = k;
          auto t = types(*u.m, k);
          u.nall = t.size();
          for (size_t i = 0; i < t.size(); i++) {
            int e = t.size() - 1 - i;
            if (t[e] == Entity_type::PARALLEL_OWNED && (int)u.own.size() < no) u.own.push_back(e);
            if (t[e] == Entity_type::PARALLEL_GHOST && u.gh.size() < 3) u.gh.push_back(e);
            if (t[e] == Entity_type::BOUNDARY_GHOST && u.other.empty()) u.other.push_back(e);
          }
          VI io, ig; if (init & 1) io.push_back(u.own[0]); if (init == 3) io = u.own; if (init & 2 && u.gh.size()) ig = {u.gh.back()};
          explore(u, rev, io, ig);
        });
  }
  std::vector<M> big = {{hexes(4, 3, 2), {}}, {quads(7, 6), {}}}; { Desc f = familybig(2)[0]; big.push_back({f, {}}); }
  for (size_t x = 0; x < big.size(); x++) for (int b = 0; b < 2; b++) { int nc = big[x].d.cells.size(); Opt o; o.ghost.assign(nc, 0); for (int i = 0; i < nc; i++) o.ghost[i] = x == 1 ? i > nc / 2 : i % 3 == 1; o.bghost = b; o.shared_owned = !b; Ref r = elaborate(big[x].d, o);
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE}) for (int rev = 0; rev < 2; rev++) vk::run(r.name + " kind " + std::to_string((int)k) + (rev ? " map" : "") + " large", [=] {
      U u; u.m = make(r); u.kind = k; auto t = types(*u.m, k); u.nall = t.size(); for (size_t i = 0; i < t.size(); i++) (t[i] == Entity_type::PARALLEL_OWNED ? u.own : t[i] == Entity_type::PARALLEL_GHOST ? u.gh : u.other).push_back(i); lengthy(u, rev); }); }
  for (auto& g : giants()) { Ref r = elaborate(g.d, g.o); for (Entity_kind k : {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CORNER, Entity_kind::WEDGE}) for (int rev = 0; rev < 2; rev++) vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " kind " + std::to_string((int)k) + (rev ? " map" : "") + " many entities", [=] { giant(r, k, rev); }); }
}
