// C10: halo layers of tiles against breadth-first search.
#include "tiles.hh"
using namespace ref;
static void one(Jali::Mesh& m, TileP t, VI const& g, int layers, std::string const& cx) {
  vk::states(); auto h = halo(m, g, layers); VI gh(h.begin(), h.end());
  VI ow = t->cells<Entity_type::PARALLEL_OWNED>(), gs = t->cells<Entity_type::PARALLEL_GHOST>(), al = t->cells<Entity_type::ALL>();
  vk::eq(vk::sorted(ow), vk::sorted(g), "owned cells", cx); vk::eq(vk::sorted(gs), gh, "halo cells", cx);
  VI cat = ow; cat.insert(cat.end(), gs.begin(), gs.end()); vk::eq(al, cat, "full list is owned then ghosts", cx);
  for (int k = 0; k < 3; k++) { Entity_type ty = k == 0 ? Entity_type::PARALLEL_OWNED : k == 1 ? Entity_type::PARALLEL_GHOST : Entity_type::ALL; int w = k == 0 ? g.size() : k == 1 ? gh.size() : g.size() + gh.size(); vk::eq(numt(*t, 0, ty), w, "cell count", cx); vk::eq((int)t->num_entities(Entity_kind::CELL, ty), w, "cell count", cx); }
}
VK_CHECK("C10", "exploration", "every non-empty subset of the owned cells as a tile (connected or not) x 0..4 halo layers on every small 1D/2D/3D/surface mesh of up to 6 (thorough 8) cells with ghost and boundary-ghost labellings, and library-made grids; every pair of disjoint subsets as two successive tiles with different layers (up to 4, thorough 5 cells); tiles made with the mesh for every tile count; chunks, residue classes and the rest as tiles with up to 7 layers and up to 36 tiles on meshes of 20 to 70 cells; up to 260 tiles with up to 12 layers on meshes of up to 700 cells; four tiles with up to 5 layers on meshes of 34200 to 70000 cells; a case is a mesh") {
  Exceptions::set_exception_behavior_raise();
  auto tms = tilemeshes(vk::thorough ? 8 : 6, vk::thorough); tms.push_back(tm3(2, 2, 2)); tms.push_back(tm3(3, 3, 1)); { Opt o; tms.push_back(tmr(elaborate(quads(3, 3), o))); tms.push_back(tmr(elaborate(quads(9, 1), o))); tms.push_back(tm1(9)); }
  for (auto& tm : tms) vk::run(tm.name, [=] {
    Req q; auto m0 = tm.make(q); VI ow = m0->cells<Entity_type::PARALLEL_OWNED>(); int n = ow.size(); int lim = n > 8 && !vk::thorough ? 8 : n;
    auto sub = [&](int mask) { VI g; for (int i = 0; i < n; i++) if (mask >> i & 1) g.push_back(ow[i]); return g; };
    for (int mask = 1; mask < (1 << lim); mask++) for (int layers = 0; layers < 5; layers++) {
      VI g = sub(mask); if (mask % 3 == 0) std::reverse(g.begin(), g.end()); std::string cx = "tile " + vk::str(g) + " layers " + std::to_string(layers); vk::set_current(cx);
      auto m = tm.make(q); auto t = Jali::make_meshtile(*m, g, layers, true, false, false, false, false); one(*m, t, g, layers, ""); if (vk::failed()) return; }
    if (n <= (vk::thorough ? 5 : 4)) for (int a = 1; a < (1 << n); a++) for (int b = 1; b < (1 << n); b++) if (!(a & b)) for (int la = 0; la < 3; la++) for (int lb = 0; lb < 3; lb++) {
      VI g = sub(a), h = sub(b); vk::set_current("tiles " + vk::str(g) + "/" + std::to_string(la) + " " + vk::str(h) + "/" + std::to_string(lb));
      auto m = tm.make(q); auto t = Jali::make_meshtile(*m, g, la, true, false, false, false, false); auto u = Jali::make_meshtile(*m, h, lb, true, false, false, false, false); one(*m, t, g, la, "first"); one(*m, u, h, lb, "second"); if (vk::failed()) return; }
    for (int nt = 1; nt <= n; nt++) for (int l = 0; l < 4; l++) { Req p = q; p.tiles = nt; p.tghost = l; vk::set_current("with the mesh: " + std::to_string(nt) + " tiles, layers " + std::to_string(l)); auto m = tm.make(p); for (auto& t : m->tiles()) one(*m, t, t->cells<Entity_type::PARALLEL_OWNED>(), l, ""); if (vk::failed()) return; }
  });
  for (auto& tm : bigtilemeshes()) vk::run(tm.name + " large", [=] { Req q; VI ow; { auto m = tm.make(q); ow = m->cells<Entity_type::PARALLEL_OWNED>(); }
    auto S = bigsubsets(ow); for (auto& g : S) for (int layers = 0; layers < 9; layers += 1 + layers / 3) { vk::set_current("tile " + vk::str(g) + " layers " + std::to_string(layers)); auto m = tm.make(q); auto t = Jali::make_meshtile(*m, g, layers, true, false, false, false, false); one(*m, t, g, layers, "");
      VI h; std::set<int> G(g.begin(), g.end()); for (int c : ow) if (!G.count(c)) h.push_back(c); if (h.size()) { auto u = Jali::make_meshtile(*m, h, layers, true, false, false, false, false); one(*m, u, h, layers, "rest"); one(*m, t, g, layers, "again"); } if (vk::failed()) return; }
    for (int nt : {2, 5, 11, 17, 36}) for (int l = 0; l < 3; l++) { if (nt > (int)ow.size()) continue; Req p = q; p.tiles = nt; p.tghost = l; vk::set_current("with the mesh: " + std::to_string(nt) + " tiles, layers " + std::to_string(l)); auto m = tm.make(p); for (auto& t : m->tiles()) one(*m, t, t->cells<Entity_type::PARALLEL_OWNED>(), l, ""); if (vk::failed()) return; } });
  for (auto& tm : hugetilemeshes()) for (int nt : {1, 2, 130, 260}) vk::run(tm.name + " with " + std::to_string(nt) + " tiles", [=] { Req p; VI ow; { auto m = tm.make(p); ow = m->cells<Entity_type::PARALLEL_OWNED>(); } int n = ow.size(), k = std::min(nt, n);
    for (int l : {0, 1, 3, 12}) { auto m = tm.make(p); std::vector<VI> G; for (int i = 0; i < k; i++) { VI g; for (int j = n - 1 - i; j >= 0; j -= k) g.push_back(ow[j]); G.push_back(g); auto t = Jali::make_meshtile(*m, g, l, true, false, false, false, false); if (i % 16 == 0 || i + 1 == k) one(*m, t, g, l, std::to_string(i)); vk::beat(); } if (vk::failed()) return; 
      // one cell in the middle
      auto m2 = tm.make(p); VI g = {ow[n / 2]}; one(*m2, Jali::make_meshtile(*m2, g, l, true, false, false, false, false), g, l, "single"); if (vk::failed()) return; } });
  for (auto& tm : gianttilemeshes()) for (int l : {0, 1, 2, 5}) vk::run(tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many cells, layers " + std::to_string(l), [=] { Req q; auto m = tm.make(q); VI ow = m->cells<Entity_type::PARALLEL_OWNED>(); auto G = giantgroups(ow); std::vector<TileP> T; for (auto& g : G) { T.push_back(Jali::make_meshtile(*m, g, l, true, false, false, false, false)); one(*m, T.back(), g, l, std::to_string(T.size())); vk::beat(); if (vk::failed()) return; }
    std::set<int> u; for (auto& g : G) u.insert(g.begin(), g.end()); for (int i : {(int)ow.size() / 4 + 1, (int)ow.size() - 101}) for (; i > 0; i--) if (!u.count(ow[i])) { VI g = {ow[i]}; u.insert(ow[i]); one(*m, Jali::make_meshtile(*m, g, l, true, false, false, false, false), g, l, "single"); break; }
    one(*m, T[0], G[0], l, "again"); });
}
