// C09: ownership of entities by tiles, over all histories of tile creation.
#include "tiles.hh"
#include <deque>
using namespace ref;
static void examine(Jali::Mesh& m, Req const& q, std::vector<VI> const& tiles, std::string const& cx) {
  auto const& T = m.tiles(); if (!vk::eq((int)T.size(), (int)tiles.size(), "number of tiles", cx) || !vk::eq(m.num_tiles(), (int)tiles.size(), "tile count", cx)) return;
  std::vector<int> want(m.num_cells<Entity_type::ALL>(), -1);
  for (size_t t = 0; t < tiles.size(); t++) { for (int c : tiles[t]) want[c] = t;
    vk::eq(vk::sorted(T[t]->cells<Entity_type::PARALLEL_OWNED>()), vk::sorted(tiles[t]), "owned cells of a tile", cx); vk::eq(T[t]->ID(), (int)t, "tile id", cx); vk::ok(&T[t]->mesh() == &m, "mesh of a tile", cx); }
  for (size_t c = 0; c < want.size(); c++) vk::eq(m.master_tile_ID_of_cell(c), want[c], "master tile of a cell", cx + " cell " + std::to_string(c));
  for (int k = 1; k < 7; k++) if (asked(q, k)) {
    std::map<int, std::set<int>> adj; for (size_t c = 0; c < want.size(); c++) if (want[c] >= 0) for (int e : ofcell(m, c, k)) adj[e].insert(want[c]);
    std::map<int, std::vector<int>> own; for (size_t t = 0; t < tiles.size(); t++) for (int e : list(*T[t], k, Entity_type::PARALLEL_OWNED)) own[e].push_back(t);
    for (auto& a : adj) { int mt = master(m, a.first, k); std::string c2 = cx + " " + KN[k] + " " + std::to_string(a.first);
      if (vk::ok(mt >= 0, std::string("no master tile of a ") + KN[k], c2)) vk::ok(a.second.count(mt) > 0, std::string("master tile of a ") + KN[k] + " has no adjacent owned cell", c2);
      vk::eq(own[a.first], VI{mt}, std::string("tiles listing a ") + KN[k] + " as owned", c2); }
    for (auto& o : own) if (!adj.count(o.first)) vk::fail(std::string("a tile owns a ") + KN[k] + " of none of its cells", cx);
  }
}
static std::string show(std::vector<VI> const& t) { std::string s; for (auto& x : t) s += vk::str(x); return s; }
VK_CHECK("C09", "model_checking", "depth-first search over all histories of user-made tiles (each step adds a tile with any non-empty subset of the still untiled owned cells, upwards or downwards) on all small 1D/2D/3D/surface meshes of up to 4 (thorough 5) cells with ghost and boundary-ghost labellings, 0..2 halo layers and 4 requests; ownership of every entity examined after every step; plus all partitioners x 1..9 tiles x halo layers for tiles made with the mesh on larger grids; pairs of tiles and up to 33 tiles on meshes of 20 to 70 cells; 127 to 700 tiles on meshes of up to 700 cells; 3 and 40 tiles on meshes of 34200 to 70000 cells; a case is a mesh, request and layer count") {
  Exceptions::set_exception_behavior_raise();
  std::vector<Req> rq4; { Req a; rq4.push_back(a); Req b; b.f = b.e = true; b.c = true; rq4.push_back(b); rq4.push_back(Req::all()); Req n; n.f = false; rq4.push_back(n); }
  for (auto& tm : tilemeshes(vk::thorough ? 5 : 4, vk::thorough)) for (size_t qi = 0; qi < rq4.size(); qi++) for (int layers = 0; layers < 3; layers++) {
    Req q = rq4[qi]; if (!tm.edges && (q.e || q.s || q.w || q.c)) continue; if (tm.md == 3 && !q.f) continue; if (layers == 2 && qi && !vk::thorough) continue;
    vk::run(tm.name + " request " + rq(q) + " layers " + std::to_string(layers), [=] {
      Req mq = q; std::vector<VI> hist;
      auto world = [&](std::vector<VI> const& h) { auto m = tm.make(mq); for (auto& g : h) Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c); return m; };
      VI owned; { auto m = tm.make(mq); owned = m->cells<Entity_type::PARALLEL_OWNED>(); for (int k = 0; k < 7; k++) if (asked(q, k)) for (int e : list(*m, k, Entity_type::ALL)) vk::eq(master(*m, e, k), -1, "master tile before any tile is made"); }
      vk::states();
      std::function<void()> rec = [&] {
        std::set<int> used; for (auto& g : hist) used.insert(g.begin(), g.end()); VI left; for (int c : owned) if (!used.count(c)) left.push_back(c);
        for (int mask = 1; mask < (1 << left.size()); mask++) {
          VI g; for (size_t i = 0; i < left.size(); i++) if (mask >> i & 1) g.push_back(left[i]); if ((mask + hist.size()) % 2) std::reverse(g.begin(), g.end());
          hist.push_back(g); vk::set_current("tiles " + show(hist)); { auto m = world(hist); examine(*m, q, hist, ""); } vk::states(); vk::transitions(); vk::traces();
          if (vk::failed()) return; rec(); hist.pop_back(); if (vk::failed()) return; } };
      rec(); });
  }
  // tiles made along with the mesh
  std::vector<TM> big = {tm3(3, 3, 2), tm3(4, 2, 1), tm1(7), tm3(2, 2, 2)};
  { Opt o; big.push_back(tmr(elaborate(quads(4, 3), o))); o.ghost = {0,0,1,1,0,0,0,1,0,0,0,1}; big.push_back(tmr(elaborate(quads(4, 3), o))); o.bghost = true; big.push_back(tmr(elaborate(quads(4, 3), o))); Opt p; big.push_back(tmr(elaborate(hexes(3, 2, 2), p))); for (auto& d : family2d()) if (d.name == "mixed") big.push_back(tmr(elaborate(d, p))); }
  for (auto& tm : big) for (auto part : {Jali::Partitioner_type::INDEX, Jali::Partitioner_type::METIS, Jali::Partitioner_type::BLOCK}) for (int layers = 0; layers < 3; layers++) {
    if (part == Jali::Partitioner_type::BLOCK && tm.name.find("gh[1") + tm.name.find("gh[0") != 2 * std::string::npos) continue;   // blocks: regular meshes only
    if (part == Jali::Partitioner_type::BLOCK && (tm.name.substr(0, 5) == "mixed" || tm.name == "simple7")) continue;
    vk::run(tm.name + " partitioner " + std::to_string((int)part) + " layers " + std::to_string(layers), [=] {
      for (int nt = 1; nt <= std::min(9, tm.ncell); nt++) { Req q = tm.edges ? Req::all() : Req(); q.tiles = nt; q.tghost = layers; q.part = part;
        vk::set_current(std::to_string(nt) + " tiles"); auto m = tm.make(q); vk::states(); vk::transitions(); vk::traces();
        if (!vk::eq(m->num_tiles(), nt, "number of tiles made")) return;
        std::vector<VI> t; std::set<int> all; size_t n = 0; for (auto& x : m->tiles()) { t.push_back(x->cells<Entity_type::PARALLEL_OWNED>()); n += t.back().size(); all.insert(t.back().begin(), t.back().end()); }
        VI ow = m->cells<Entity_type::PARALLEL_OWNED>(); vk::ok(n == ow.size() && all == std::set<int>(ow.begin(), ow.end()), "tiles do not partition the owned cells");
        examine(*m, q, t, ""); if (vk::failed()) return; } });
  }
  for (auto& tm : bigtilemeshes()) vk::run(tm.name + " large", [=] { Req q = tm.edges ? Req::all() : Req(); VI ow; { auto m = tm.make(q); ow = m->cells<Entity_type::PARALLEL_OWNED>(); }
    auto S = bigsubsets(ow); for (auto& g : S) for (int layers = 0; layers < 2; layers++) { vk::set_current("tile " + vk::str(g) + " layers " + std::to_string(layers)); auto m = tm.make(q); Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c); examine(*m, q, {g}, "first"); vk::states(); vk::transitions(); vk::traces();
      VI h; std::set<int> G(g.begin(), g.end()); for (int c : ow) if (!G.count(c)) h.push_back(c); if (h.size()) { Jali::make_meshtile(*m, h, layers, q.f, q.e, q.s, q.w, q.c); examine(*m, q, {g, h}, "both"); vk::states(); vk::transitions(); vk::traces(); } if (vk::failed()) return; }
    for (int nt : {12, 17, 33}) { if (nt > (int)ow.size()) continue; Req p = q; p.tiles = nt; p.tghost = nt % 3; vk::set_current("with the mesh: " + std::to_string(nt) + " tiles"); auto m = tm.make(p); if (!vk::eq(m->num_tiles(), nt, "number of tiles made")) return; std::vector<VI> t; for (auto& x : m->tiles()) t.push_back(x->cells<Entity_type::PARALLEL_OWNED>()); examine(*m, q, t, ""); vk::states(); vk::transitions(); vk::traces(); if (vk::failed()) return; } });
  for (auto& tm : hugetilemeshes()) for (int nt : {127, 128, 130, 256, 260, tm.ncell}) vk::run(tm.name + " with " + std::to_string(nt) + " tiles", [=] { if (nt > tm.ncell) { vk::trivial(); return; }
    for (int layers = 0; layers < 2; layers++) { Req p = tm.edges ? Req::all() : Req(); VI ow; { auto m = tm.make(p); ow = m->cells<Entity_type::PARALLEL_OWNED>(); }
      if (nt <= (int)ow.size()) { Req q = p; q.tiles = nt; q.tghost = layers; vk::set_current("with the mesh"); auto m = tm.make(q); if (!vk::eq(m->num_tiles(), nt, "number of tiles made")) return; std::vector<VI> t; std::set<int> all; size_t n = 0; for (auto& x : m->tiles()) { t.push_back(x->cells<Entity_type::PARALLEL_OWNED>()); n += t.back().size(); all.insert(t.back().begin(), t.back().end()); } vk::ok(n == ow.size() && all == std::set<int>(ow.begin(), ow.end()), "tiles do not partition the owned cells"); examine(*m, p, t, ""); vk::states(); vk::transitions(); vk::traces(); vk::beat(); }
      // by hand, from the last cell to the first
      vk::set_current("by hand"); auto m = tm.make(p); std::vector<VI> t; int n = ow.size(), k = std::min(nt, n); for (int i = 0; i < k; i++) { VI g; for (int j = n - 1 - i; j >= 0; j -= k) g.push_back(ow[j]); t.push_back(g); Jali::make_meshtile(*m, g, layers, p.f, p.e, p.s, p.w, p.c); vk::transitions(); } examine(*m, p, t, ""); vk::states(); vk::traces(); vk::beat(); if (vk::failed()) return; } });
  for (auto& tm : gianttilemeshes()) for (int layers = 0; layers < 2; layers++) vk::run(tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many cells, layers " + std::to_string(layers), [=] { Req q = tm.edges ? Req::all() : Req(); auto m = tm.make(q); std::vector<VI> t; for (auto& g : giantgroups(m->cells<Entity_type::PARALLEL_OWNED>())) { t.push_back(g); Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c); vk::beat(); examine(*m, q, t, "by hand, " + std::to_string(t.size())); vk::states(); vk::transitions(); vk::traces(); vk::beat(); if (vk::failed()) return; } });
  for (auto& tm : gianttilemeshes()) for (int nt : {2, 40}) vk::run(tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many cells with " + std::to_string(nt) + " tiles", [=] { Req q = tm.edges ? Req::all() : Req(), p = q; p.tiles = nt; p.tghost = nt == 2; auto m = tm.make(p); vk::beat(); if (!vk::eq(m->num_tiles(), nt, "number of tiles made")) return; std::vector<VI> t; std::set<int> all; size_t n = 0; for (auto& x : m->tiles()) { t.push_back(x->cells<Entity_type::PARALLEL_OWNED>()); n += t.back().size(); all.insert(t.back().begin(), t.back().end()); } VI ow = m->cells<Entity_type::PARALLEL_OWNED>(); vk::ok(n == ow.size() && all == std::set<int>(ow.begin(), ow.end()), "tiles do not partition the owned cells"); examine(*m, q, t, ""); vk::states(); vk::transitions(); vk::traces(); });
}
