// C17: histories of set creation, initialisation and look-up.
#include "refmesh.hh"
#include <deque>
using namespace ref;
using namespace JaliGeometry;
typedef std::shared_ptr<Jali::MeshSet> SetP;
static const Entity_kind C = Entity_kind::CELL, F = Entity_kind::FACE, N = Entity_kind::NODE, E = Entity_kind::EDGE;
typedef std::pair<std::string, int> Key;
struct Reg { std::string name; int type; };   // 0 box 1 plane 2 point 3 polygon 4 labelled 5 logical
static int order_;
static std::vector<Reg> regs(int sd, int order) {
  std::vector<Reg> v = {{"box", 0}, {"plane", 1}, {"pt", 2}, {"poly", 3}}; if (sd == 3) { v.push_back({"lab", 4}); v.push_back({"nod", 6}); v.push_back({"logic", 5}); v.push_back({"loglab", 7}); }
  if (order == 1) std::reverse(v.begin(), v.end()); if (order >= 2) std::rotate(v.begin(), v.begin() + (order - 1) % v.size(), v.end()); return v;
}
static std::vector<Entity_kind> defkinds(int type, bool faces) {
  std::vector<Entity_kind> k; if (type == 4) return {F}; if (type == 6 || type == 7) return {N}; if (type == 0 || type == 5) k.push_back(C); if (type != 2 && faces) k.push_back(F); k.push_back(N); return k; }
static bool validkind(int type, Entity_kind k, bool surf) { switch (type) { case 0: case 5: return k == C || k == F || k == N; case 1: case 3: return k == F || k == N || (surf && k == C); case 2: return k == C || k == N; case 4: return k == F; case 6: return k == N; default: return k == N; } }
struct W { Ref r; std::shared_ptr<RefMesh> m; GeometricModel* gm; std::vector<Reg> rg; bool faces; std::map<std::string, int> type; };
static W world(Ref const& r, int order, bool faces) {
  W w; w.r = r; w.faces = faces; w.gm = new GeometricModel(r.sd); Req q; q.f = faces; w.m = make(r, q, w.gm); w.rg = regs(r.sd, order); int id = 1;
  for (auto& g : w.rg) { w.type[g.name] = g.type; Region* x = 0; V3 a = P(-.1, -.1, -.1), b = P(1.1, 1.1, 1.1), o = P(0, 0, 0), n = P(1, 0, 0);
    switch (g.type) { case 0: x = new BoxRegion(g.name, id, pt(a, r.sd), pt(b, r.sd)); break; case 1: x = new PlaneRegion(g.name, id, pt(o, r.sd), pt(n, r.sd)); break; case 2: x = new PointRegion(g.name, id, pt(P(1, 1, 1), r.sd)); break;
      case 3: { std::vector<Point> p; if (r.sd == 2) p = {pt(P(-.25, 0), 2), pt(P(1.25, 0), 2)}; else p = {pt(P(-.25, -.25, 0), 3), pt(P(1.25, -.25, 0), 3), pt(P(1.25, 1.25, 0), 3)}; x = new PolygonRegion(g.name, id, p.size(), p); break; }
      case 4: x = new LabeledSetRegion(g.name, id, "Entity_kind::FACE", "f", "t", "L"); break; case 6: x = new LabeledSetRegion(g.name, id, "NODE", "f", "t", "M"); break;
      case 5: x = new LogicalRegion(g.name, id, "Union", {"box", "plane"}); break; case 7: x = new LogicalRegion(g.name, id, "Subtract", {"nod", "box"}); break; }
    w.gm->Add_Region(x); id++; }
  w.m->labels[std::make_pair(std::string("L"), (int)F)] = {VI{0, 2}, VI()}; w.m->labels[std::make_pair(std::string("M"), (int)N)] = {VI{1, 0, 3}, VI()};
  return w;
}
static void need(W const& w, std::string const& n, Entity_kind k, std::set<Key>& s) { s.insert(Key(n, (int)k)); int t = w.type.at(n); if (t == 5) { s.insert(Key("box", (int)k)); s.insert(Key("plane", (int)k)); } if (t == 7) { s.insert(Key("nod", (int)k)); s.insert(Key("box", (int)k)); } }
// operations
enum { INIT, INITMAP1, INITMAP2, MAKE, MAKE2, ADD, FINDR, FINDC, BUILD, RENAME, NOPS };
static char const* opn[] = {"init", "init{box:cell}", "init{plane:node,box:face node}", "make u/cell", "make u/node", "add v/face", "find-or-make plane/face", "find-or-make pt/cell", "build box/face", "rename u/cell to w"};
static VI members(SetP s) { VI v = s->entities<Entity_type::PARALLEL_OWNED>(); v.push_back(-1); auto& g = s->entities<Entity_type::PARALLEL_GHOST>(); v.insert(v.end(), g.begin(), g.end()); return v; }
static void examine(W& w, std::set<Key> const& S, std::string const& cx) {
  auto const& L = w.m->sets(); std::map<Key, int> cnt; for (auto s : L) cnt[Key(s->name(), (int)s->kind())]++;
  for (auto& k : S) if (!cnt.count(k)) vk::fail("set missing", cx + " " + k.first + "/" + std::to_string(k.second));
  for (auto& c : cnt) { vk::cmp(); if (!S.count(c.first)) vk::fail("unexpected set", cx + " " + c.first.first + "/" + std::to_string(c.first.second)); if (c.second != 1) vk::fail("set registered more than once", cx + " " + c.first.first + "/" + std::to_string(c.first.second)); }
  vk::eq(w.m->num_sets(), (int)S.size(), "number of sets", cx); vk::eq(w.m->num_sets(Entity_kind::ANY_KIND), (int)S.size(), "number of sets of any kind", cx);
  vk::eq((int)w.m->sets(Entity_kind::ANY_KIND).size(), (int)S.size(), "list of sets of any kind", cx);
  for (Entity_kind k : {C, F, N, E, Entity_kind::CORNER}) {
    int n = 0; for (auto& s : S) if (s.second == (int)k) n++;
    vk::eq(w.m->num_sets(k), n, "number of sets of a kind", cx); auto lk = w.m->sets(k); vk::eq((int)lk.size(), n, "sets of a kind", cx); for (auto s : lk) vk::ok(s->kind() == k, "set of another kind", cx);
    for (std::string nm : {"box", "plane", "pt", "poly", "lab", "nod", "logic", "loglab", "u", "v", "w", "", "bo"}) {
      bool have = S.count(Key(nm, (int)k)); SetP s = w.m->find_meshset(nm, k);
      if (!vk::ok((s != nullptr) == have, have ? "registered set not found" : "unregistered set found", cx + " " + nm + "/" + std::to_string((int)k))) continue;
      if (s) vk::ok(s->name() == nm && s->kind() == k && std::find(L.begin(), L.end(), s) != L.end(), "another set found", cx + " " + nm);
      std::shared_ptr<Jali::Mesh const> cm = w.m;
      for (Entity_type t : {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::BOUNDARY_GHOST, Entity_type::ALL}) {
        VI want; if (s && t != Entity_type::BOUNDARY_GHOST) want = t == Entity_type::PARALLEL_OWNED ? s->entities<Entity_type::PARALLEL_OWNED>() : t == Entity_type::PARALLEL_GHOST ? s->entities<Entity_type::PARALLEL_GHOST>() : s->entities<Entity_type::ALL>();
        VI got = junk(); w.m->get_set_entities(nm, k, t, &got); vk::eq(got, want, "entities by name", cx); vk::eq((int)w.m->get_set_size(nm, k, t), (int)want.size(), "size by name", cx); vk::eq((int)cm->get_set_size(nm, k, t), (int)want.size(), "size by name", cx); }
      auto it = w.type.find(nm); bool val = it != w.type.end() && it->second != 7 && validkind(it->second, k, w.r.md < w.r.sd);
      if (it == w.type.end() || it->second != 7) { vk::ok(w.m->valid_region_name(nm, k) == val, val ? "valid region name refused" : "invalid region name accepted", cx + " " + nm + "/" + std::to_string((int)k));
        SetP q = cm->find_meshset_from_region(nm, k); vk::ok(q == (val ? s : nullptr), "look-up from region", cx + " " + nm); SetP q2 = w.m->find_meshset_from_region(nm, k, false); vk::ok(q2 == (val ? s : nullptr), "look-up from region", cx + " " + nm); }
    } }
  vk::eq(w.m->num_sets(), (int)S.size(), "look-ups registered sets", cx);
}
static bool step(W& w, std::set<Key>& S, int op) {
  auto reg = [&](std::string const& n, Entity_kind k) { return S.count(Key(n, (int)k)) > 0; };
  std::map<std::string, std::vector<Entity_kind>> map; if (op == INITMAP1) map["box"] = {C}; if (op == INITMAP2) { map["plane"] = {N}; map["box"] = {F, N}; }
  switch (op) {
    case INIT: w.m->init_sets_from_geometric_model(); break;
    case INITMAP1: case INITMAP2: w.m->init_sets_from_geometric_model(map); break;
    case MAKE: if (reg("u", C)) return false; Jali::make_meshset("u", *w.m, C, VI{1, 0}, VI(), true); S.insert(Key("u", (int)C)); break;
    case MAKE2: if (reg("u", N)) return false; Jali::make_meshset("u", *w.m, N, VI{2}, VI(), false); S.insert(Key("u", (int)N)); break;
    case ADD: if (reg("v", F)) return false; w.m->add_set(std::make_shared<Jali::MeshSet>("v", *w.m, F, VI{0, 1}, VI())); S.insert(Key("v", (int)F)); break;
    case FINDR: { SetP a = w.m->find_meshset_from_region("plane", F, true); vk::ok(a && a->name() == "plane", "set not made"); S.insert(Key("plane", (int)F)); break; }
    case FINDC: { SetP a = w.m->find_meshset_from_region("pt", C, true); vk::ok(a && a->name() == "pt", "set not made"); S.insert(Key("pt", (int)C)); break; }
    case BUILD: if (reg("box", F)) return false; w.m->build_set_from_region("box", F); S.insert(Key("box", (int)F)); break;
    case RENAME: if (!reg("u", C) || reg("w", C)) return false; w.m->find_meshset("u", C)->set_name("w"); S.erase(Key("u", (int)C)); S.insert(Key("w", (int)C)); break;
  }
  if (op <= INITMAP2) for (auto& g : w.rg) { auto k = defkinds(g.type, w.faces); if (map.count(g.name)) k = map[g.name]; for (auto q : k) need(w, g.name, q, S); }
  return true;
}
VK_CHECK("C17", "model_checking", "breadth-first search over registry states (the ordered list of registered names and kinds) with 10 operations (three kinds of initialisation from the geometric model, making, adding, building, find-or-make, renaming) up to depth 4 (thorough 7), each transition replayed from its whole history on a fresh real mesh, every look-up of 13 names x 5 kinds x 3 types examined after each; 2D and 3D models (and a surface mesh) with 4 and 8 regions in every rotation of a declaration order and its reverse, with and without faces; up to 24 (thorough 60) sets of each of the seven kinds; models of up to 257 regions; sets and regions with 43 names that are easily taken for one another; the same questions before and after sets are edited; a case is a model and order") {
  Exceptions::set_exception_behavior_raise();
  std::vector<Desc> ds = {quads(2, 2), hexes(2, 1, 1), poly2("mixed", {P(0,0), P(2,0), P(0,2), P(2,2), P(3,1)}, {{0,1,3,2}, {1,4,3}}), familysurf()[0]};
  for (auto& d : ds) for (int gh = 0; gh < 2; gh++) for (int order = 0; order <= (d.sd == 2 ? 4 : 8); order++) for (int faces = d.md == 2 ? 0 : 1; faces < 2; faces++) {
    Opt o; if (gh) { o.ghost.assign(d.cells.size(), 0); o.ghost.back() = 1; o.bghost = true; } Ref r = elaborate(d, o);
    vk::run(r.name + " order " + std::to_string(order) + (faces ? " faces" : ""), [=] {
      typedef std::vector<Key> St; struct Nd { VI h; std::set<Key> S; int d; }; std::deque<Nd> q; std::set<St> seen; q.push_back({VI(), {}, 0}); { W w = world(r, order, faces); examine(w, {}, "start"); } vk::states();
      while (!q.empty() && !vk::failed()) { Nd n = q.front(); q.pop_front(); vk::beat();
        for (int op = 0; op < NOPS; op++) { if (!faces && (op == FINDR || op == BUILD || op == ADD || op == INITMAP2)) continue;
          W w = world(r, order, faces); std::set<Key> S; std::string cx; for (int p : n.h) { step(w, S, p); cx += std::string(opn[p]) + "; "; } cx += opn[op]; vk::set_current(cx);
          auto before = w.m->sets(); std::vector<VI> mem; for (auto s : before) mem.push_back(members(s));
          if (!step(w, S, op)) continue; vk::transitions(); vk::traces();
          auto const& after = w.m->sets(); for (size_t i = 0; i < before.size() && i < after.size(); i++) { vk::ok(after[i] == before[i], "registered sets reordered or replaced"); vk::ok(members(before[i]) == mem[i], "members of a registered set changed", before[i]->name()); }
          examine(w, S, ""); if (vk::failed()) return;
          St st; for (auto s : after) st.push_back(Key(s->name(), (int)s->kind()));
          if (n.d + 1 <= (vk::thorough ? 6 : 3) && seen.insert(st).second) { vk::states(); VI h = n.h; h.push_back(op); q.push_back({h, S, n.d + 1}); vk::count((std::string("states_at_depth_") + std::to_string(n.d + 1)).c_str()); }
        } } });
  }
  // many sets of every kind, and models of many regions
  static Entity_kind const AK[7] = {N, E, F, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, C};
  for (int n = 1; n <= (vk::thorough ? 60 : 24); n++) for (int gh = 0; gh < 2; gh++) vk::run("many sets " + std::to_string(n) + (gh ? " ghosts" : ""), [=] {
    Opt o; if (gh) { o.ghost = {0, 1, 0, 0, 1, 0}; o.bghost = true; } Ref r = elaborate(quads(3, 2), o); auto m = make(r, Req::all()); std::vector<SetP> S; std::vector<VI> mem;
    auto names = [](int i) { return i % 3 == 0 ? "s" + std::to_string(i) : i % 3 == 1 ? std::string(i, 'x') : "set" + std::to_string(i / 2); };
    for (int i = 0; i < n; i++) for (int k = 0; k < 7; k++) { if ((i + k) % 4 == 3) continue; VI a, b; int tot = m->num_entities(AK[k], Entity_type::ALL); for (int e = 0; e < tot; e++) if ((e * (i + 1)) % 5 < 2) { auto t = m->entity_get_type(AK[k], e); if (t == Entity_type::PARALLEL_OWNED) a.push_back(e); if (t == Entity_type::PARALLEL_GHOST) b.push_back(e); } S.push_back(Jali::make_meshset(names(i), *m, AK[k], a, b, (i + k) % 2)); mem.push_back(members(S.back())); vk::transitions(); }
    vk::states(); vk::traces(); auto const& L = m->sets(); vk::ok(L == S, "list of registered sets in the order made"); vk::eq(m->num_sets(), (int)S.size(), "number of sets"); std::shared_ptr<Jali::Mesh const> cm = m;
    for (int k = 0; k < 7; k++) { std::vector<SetP> w; for (auto& x : S) if (x->kind() == AK[k]) w.push_back(x); vk::ok(m->sets(AK[k]) == w, "sets of a kind"); vk::eq(m->num_sets(AK[k]), (int)w.size(), "number of sets of a kind");
      for (int i = 0; i <= n; i++) { SetP e; for (auto& x : w) if (x->name() == names(i)) { e = x; break; } vk::ok(m->find_meshset(names(i), AK[k]) == e, e ? "registered set not found" : "unregistered set found", names(i)); 
        for (Entity_type t : {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL}) { VI want; if (e) want = t == Entity_type::PARALLEL_OWNED ? e->entities<Entity_type::PARALLEL_OWNED>() : t == Entity_type::PARALLEL_GHOST ? e->entities<Entity_type::PARALLEL_GHOST>() : e->entities<Entity_type::ALL>(); VI got = junk(); m->get_set_entities(names(i), AK[k], t, &got); vk::eq(got, want, "entities by name"); vk::eq((int)cm->get_set_size(names(i), AK[k], t), (int)want.size(), "size by name"); } } }
    for (size_t i = 0; i < S.size(); i++) vk::ok(members(S[i]) == mem[i], "members of a registered set changed"); });
  // the same question before and after every edit of the set, and of another set
  for (int n : {2, 3}) for (int gh = 0; gh < 2; gh++) vk::run("edited between questions " + std::to_string(n) + (gh ? " ghosts" : ""), [=] {
    Opt o; if (gh) { o.ghost = {0, 1, 0, 0, 1, 0}; o.bghost = true; } Ref r = elaborate(quads(3, 2), o); auto m = make(r, Req::all()); std::shared_ptr<Jali::Mesh const> cm = m; Entity_type const T[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL};
    for (int k = 0; k < 7; k++) { std::vector<SetP> S; std::vector<std::set<int>> M; VI ok; for (int e = 0; e < m->num_entities(AK[k], Entity_type::ALL); e++) if (m->entity_get_type(AK[k], e) != Entity_type::BOUNDARY_GHOST) ok.push_back(e);
      for (int i = 0; i < n; i++) { VI a, b; std::set<int> x; for (int e : ok) if ((e + i) % 2) { (m->entity_get_type(AK[k], e) == Entity_type::PARALLEL_OWNED ? a : b).push_back(e); x.insert(e); } S.push_back(Jali::make_meshset("e" + std::to_string(i), *m, AK[k], a, b, i % 2)); M.push_back(x); }
      auto put = [&](std::string const& nm, int how, Entity_type t, VI& got, int& size) { if (how == 0) m->get_set_entities(nm, AK[k], t, &got); if (how == 1) size = m->get_set_size(nm, AK[k], t); if (how == 2) size = cm->get_set_size(nm, AK[k], t); if (how == 3) { auto s = m->find_meshset(nm, AK[k]); size = s->num_entities(t); got = t == T[0] ? s->entities<Entity_type::PARALLEL_OWNED>() : t == T[1] ? s->entities<Entity_type::PARALLEL_GHOST>() : s->entities<Entity_type::ALL>(); } };
      for (int how = 0; how < 4; how++) for (auto t : T) for (int q = 0; q < n; q++) for (int w = 0; w < n; w++) for (int ed = 0; ed < 5; ed++) for (int rep = 0; rep < 2; rep++) {
        std::string nm = "e" + std::to_string(q); VI g0 = junk(), got = junk(); int s0 = -1, size = -1; put(nm, how, t, g0, s0); vk::transitions(); vk::traces();
        VI out, in(M[w].begin(), M[w].end()); for (int e : ok) if (!M[w].count(e)) out.push_back(e);
        switch (ed) { case 0: if (out.size()) { S[w]->add_entity(out.back()); M[w].insert(out.back()); } break; case 1: if (in.size()) { S[w]->rem_entity(in[0]); M[w].erase(in[0]); } break; case 2: S[w]->rem_entities(in); M[w].clear(); break; case 3: S[w]->add_entities(out); M[w].insert(out.begin(), out.end()); break;
          default: { VI h; for (size_t i = 0; i < in.size(); i += 2) h.push_back(in[i]); S[w]->rem_entities(h); for (int e : h) M[w].erase(e); } }
        put(nm, how, t, got, size); VI want; for (int e : M[q]) { auto et = m->entity_get_type(AK[k], e); if (t == Entity_type::ALL || et == t) want.push_back(e); } std::string cx = "kind " + std::to_string((int)AK[k]) + " type " + std::to_string((int)t) + " edit " + std::to_string(ed) + " of e" + std::to_string(w) + ", asked of " + nm;
        if (how != 1 && how != 2 && !vk::eq(vk::sorted(got), want, "entities by name after an edit", cx)) return; if (how && !vk::eq(size, (int)want.size(), "size by name after an edit", cx)) return; } vk::states(); } });
  // names that are easily taken for one another, half of them registered: made directly, and as the names of regions
  for (int par = 0; par < 4; par++) { vk::run("like names " + std::to_string(par), [=] { auto nm = vk::names(); Ref r = elaborate(quads(3, 2), Opt()); auto m = make(r, Req::all()); std::map<std::pair<std::string, int>, SetP> S; int n = nm.size();
      for (int j = 0; j < n; j++) { int i = par >= 2 ? n - 1 - j : j; for (int k = 0; k < 7; k++) if ((i + k + par) % 2) S[std::make_pair(nm[i], k)] = Jali::make_meshset(nm[i], *m, AK[k], VI{(i + k) % 6}, VI(), i % 3 == 0); }
      vk::states(); vk::traces(); vk::transitions(S.size()); vk::eq(m->num_sets(), (int)S.size(), "number of sets");
      for (int i = 0; i < n; i++) for (int k = 0; k < 7; k++) { auto it = S.find(std::make_pair(nm[i], k)); SetP e = it == S.end() ? SetP() : it->second; vk::ok(m->find_meshset(nm[i], AK[k]) == e, e ? "registered set not found" : "unregistered set found", "\"" + nm[i] + "\""); VI got = junk(), want; if (e) want = {(i + k) % 6}; m->get_set_entities(nm[i], AK[k], Entity_type::ALL, &got); vk::eq(got, want, "entities by name", nm[i]); vk::eq((int)m->get_set_size(nm[i], AK[k], Entity_type::ALL), (int)want.size(), "size by name", nm[i]); } });
    vk::run("regions with like names " + std::to_string(par), [=] { auto nm = vk::names(); std::vector<std::string> us; for (size_t i = 0; i < nm.size(); i++) if ((i + par) % 2) us.push_back(nm[i]); if (par >= 2) std::reverse(us.begin(), us.end()); Ref r = elaborate(quads(4, 2), Opt()); GeometricModel gm(2); std::vector<std::unique_ptr<Region>> own;
      auto lo = [](int i) { return Point(i % 4 + 0.25, i / 4 % 2 + 0.25); }; auto hi = [](int i) { return Point(i % 4 + (i / 8 % 2 ? 1.75 : 0.75), i / 4 % 2 + 0.75); };
      for (size_t i = 0; i < us.size(); i++) { own.emplace_back(new BoxRegion(us[i], i + 1, lo(i), hi(i))); gm.Add_Region(own.back().get()); }
      auto m = make(r, Req(), &gm); m->init_sets_from_geometric_model(); vk::states(); vk::transitions(); vk::traces(); vk::eq(m->num_sets(C), (int)us.size(), "number of sets of a kind");
      for (auto& s : nm) { int i = std::find(us.begin(), us.end(), s) - us.begin(); bool have = i < (int)us.size(); SetP e = m->find_meshset(s, C); vk::eq((bool)e, have, "set of a region found by name", "\"" + s + "\""); if (!e || !have) continue; VI want; for (int c = 0; c < m->num_entities(C, Entity_type::ALL); c++) { Point p = m->cell_centroid(c); if (p[0] > lo(i)[0] && p[0] < hi(i)[0] && p[1] > lo(i)[1] && p[1] < hi(i)[1]) want.push_back(c); } vk::eq(vk::sorted(e->entities<Entity_type::ALL>()), want, "set holds the entities in its region", "\"" + s + "\""); } }); }
  for (int n : {1, 5, 17, 40, 101, 130, 257}) for (int twice = 0; twice < 2; twice++) vk::run("many regions " + std::to_string(n) + (twice ? " twice" : ""), [=] {
    Ref r = elaborate(quads(3, 2), Opt()); std::unique_ptr<GeometricModel> gm(new GeometricModel(2)); std::vector<std::unique_ptr<Region>> own; for (int i = 0; i < n; i++) { double a = (i % 4) - 0.25, b = (i % 3) - 0.25; own.emplace_back(new BoxRegion("r" + std::to_string(i), i + 1, Point(a, b), Point(a + 1.5, b + 1.5))); gm->Add_Region(own.back().get()); }
    auto m = make(r, Req(), gm.get()); for (int t = 0; t <= twice; t++) m->init_sets_from_geometric_model(); vk::states(); vk::transitions(); vk::traces(); vk::eq(m->num_sets(), 3 * n, "number of sets");
    for (Entity_kind k : {C, F, N}) { vk::eq(m->num_sets(k), n, "number of sets of a kind"); for (int i = 0; i < n; i++) { SetP s = m->find_meshset("r" + std::to_string(i), k); if (!vk::ok(s && s->name() == "r" + std::to_string(i) && s->kind() == k, "registered set not found")) continue;
        VI want; int tot = m->num_entities(k, Entity_type::ALL); for (int e = 0; e < tot; e++) { VI ns; if (k == N) ns = {e}; else if (k == F) m->face_get_nodes(e, &ns); V3 c = P(0, 0, 0); for (int q : ns) c = c + (1.0 / ns.size()) * r.X[q]; if (k == C) { Point p = m->cell_centroid(e); c = P(p[0], p[1]); } else if (k == F) { Point p = m->face_centroid(e); c = P(p[0], p[1]); } if (own[i]->inside(pt(c, 2))) want.push_back(e); }
        if (k != F) vk::eq(vk::sorted(s->entities<Entity_type::ALL>()), want, "set holds the entities in its region", "region " + std::to_string(i)); } } });
}
