// C11: entity lists of tiles against the closure of their cells.
#include "tiles.hh"
using namespace ref;
static Entity_type const TY[3] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL};
static void one(Jali::Mesh& m, Jali::MeshTile& t, Req const& q, std::string const& cx) {
  vk::states(); VI cells = t.cells<Entity_type::ALL>();
  for (int k = 0; k < 7; k++) {
    VI l[3]; for (int y = 0; y < 3; y++) { l[y] = list(t, k, TY[y]); vk::eq(numt(t, k, TY[y]), (int)l[y].size(), std::string("count of ") + KN[k] + "s", cx); vk::eq((int)t.num_entities(KINDS[k], TY[y]), (int)l[y].size(), std::string("count of ") + KN[k] + "s by kind", cx); }
    if (!asked(q, k)) { for (int y = 0; y < 3; y++) vk::eq(l[y], VI(), std::string(KN[k]) + "s not asked for", cx); continue; }
    std::set<int> w; for (int c : cells) { auto v = ofcell(m, c, k); w.insert(v.begin(), v.end()); } VI want(w.begin(), w.end());
    vk::eq(vk::sorted(l[2]), want, std::string("full list of ") + KN[k] + "s", cx);
    VI both = l[0]; both.insert(both.end(), l[1].begin(), l[1].end()); vk::eq(vk::sorted(both), want, std::string("owned and ghost parts of ") + KN[k] + "s", cx);
    if (k >= 4) { std::set<int> o; for (int c : t.cells<Entity_type::PARALLEL_OWNED>()) { auto v = ofcell(m, c, k); o.insert(v.begin(), v.end()); } vk::eq(vk::sorted(l[0]), VI(o.begin(), o.end()), std::string("owned ") + KN[k] + "s", cx); }
  }
}
VK_CHECK("C11", "exploration", "every subset of the owned cells (up to 5, thorough 6 cells) as a tile, 0..2 layers, with all 32 combinations of requested kinds on the tile (mesh with all kinds) for full and single-cell tiles and 8 combinations otherwise, every kind and type; all 32 mesh requests with tiles made along with the mesh; second tiles on top of a first; 1D/2D/3D/surface meshes with ghost and boundary-ghost labellings; chunks, residue classes and the rest as tiles of meshes of 20 to 70 cells; up to 200 tiles on meshes of up to 700 cells; three tiles on meshes of 34200 to 70000 cells; a case is a mesh and a block of requests") {
  Exceptions::set_exception_behavior_raise();
  for (auto& tm : tilemeshes(vk::thorough ? 6 : 5, vk::thorough)) for (int blk = 0; blk < 4; blk++) vk::run(tm.name + " block " + std::to_string(blk), [=] {
    for (int rb = blk; rb < 32; rb += 4) {
      Req q; q.f = rb & 1; q.e = rb & 2; q.s = rb & 4; q.w = rb & 8; q.c = rb & 16; if (!tm.edges && rb > 1) continue;
      Req mq = tm.edges ? Req::all() : Req();
      VI ow; { auto m = tm.make(mq); ow = m->cells<Entity_type::PARALLEL_OWNED>(); } int n = ow.size();
      for (int mask = 1; mask < (1 << n); mask++) { bool ex = mask == (1 << n) - 1 || !(mask & (mask - 1)); if (!ex && rb % 9 != 4 && rb != 31 && rb != 0 && !vk::thorough) continue;
        for (int layers = 0; layers < 3; layers++) { VI g, h; for (int i = 0; i < n; i++) (mask >> i & 1 ? g : h).push_back(ow[i]);
          vk::set_current("tile " + vk::str(g) + " layers " + std::to_string(layers) + " request " + rq(q)); auto m = tm.make(mq);
          auto t = Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c); one(*m, *t, q, "");
          if (h.size()) { auto u = Jali::make_meshtile(*m, h, layers, q.f, q.e, q.s, q.w, q.c); one(*m, *u, q, "second tile"); one(*m, *t, q, "first tile again"); }
          if (vk::failed()) return; } }
      // tiles made with the mesh: the kinds the mesh has
      if (tm.md == 3 && !(q.f || q.s || q.w || q.c)) continue;   // geometry of 3D cells needs faces
      for (int nt = 1; nt <= n; nt++) { Req p = q; p.tiles = nt; p.tghost = nt % 3; vk::set_current("with the mesh: " + std::to_string(nt) + " tiles, request " + rq(q)); auto m = tm.make(p);
        Req has = q; if (has.c) has.w = true; if (has.w) has.s = true; if (has.s) has.f = has.e = true;
        
        for (auto& t : m->tiles()) one(*m, *t, has, ""); if (vk::failed()) return; }
    } });
  for (auto& tm : bigtilemeshes()) vk::run(tm.name + " large", [=] { Req q = tm.edges ? Req::all() : Req(); VI ow; { auto m = tm.make(q); ow = m->cells<Entity_type::PARALLEL_OWNED>(); }
    auto S = bigsubsets(ow); for (auto& g : S) for (int layers = 0; layers < 3; layers++) { vk::set_current("tile " + vk::str(g) + " layers " + std::to_string(layers)); auto m = tm.make(q); auto t = Jali::make_meshtile(*m, g, layers, q.f, q.e, q.s, q.w, q.c); one(*m, *t, q, "");
      VI h; std::set<int> G(g.begin(), g.end()); for (int c : ow) if (!G.count(c)) h.push_back(c); if (h.size()) { auto u = Jali::make_meshtile(*m, h, layers, q.f, q.e, q.s, q.w, q.c); one(*m, *u, q, "second tile"); one(*m, *t, q, "first tile again"); } if (vk::failed()) return; }
    for (int nt : {2, 5, 17}) { if (nt > (int)ow.size()) continue; Req p = q; p.tiles = nt; p.tghost = nt % 3; vk::set_current("with the mesh: " + std::to_string(nt) + " tiles"); auto m = tm.make(p); for (auto& t : m->tiles()) one(*m, *t, q, ""); if (vk::failed()) return; } });
  for (auto& tm : hugetilemeshes()) for (int nt : {1, 3, 200}) vk::run(tm.name + " with " + std::to_string(nt) + " tiles", [=] { Req q = tm.edges ? Req::all() : Req(); Req p = q; p.tiles = nt; p.tghost = 1; auto m = tm.make(p); int i = 0; for (auto& t : m->tiles()) if (i++ % 16 == 0 || i == m->num_tiles()) { one(*m, *t, q, "tile " + std::to_string(i - 1)); vk::beat(); if (vk::failed()) return; } });
  for (auto& tm : gianttilemeshes()) for (int l : {0, 2}) vk::run(tm.name.substr(0, 12) + " (" + std::to_string(tm.ncell) + ") many cells, layers " + std::to_string(l), [=] { Req q = tm.edges ? Req::all() : Req(); auto m = tm.make(q); auto G = giantgroups(m->cells<Entity_type::PARALLEL_OWNED>()); std::vector<TileP> T; for (auto& g : G) { T.push_back(Jali::make_meshtile(*m, g, l, q.f, q.e, q.s, q.w, q.c)); one(*m, *T.back(), q, std::to_string(T.size())); vk::beat(); if (vk::failed()) return; } one(*m, *T[0], q, "again"); });
}
