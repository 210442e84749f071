// C03: adjacency queries of the library against the mesh they are about
#include "refmesh.hh"
using namespace ref;
static Entity_type const OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST, AL = Entity_type::ALL;
static bool tmatch(Entity_type a, Entity_type t) { return t == AL || a == t; }
static void one(Ref const& r, Req const& q) {
  auto mp = make(r, q); Jali::Mesh& m = *mp;
  for (int c = 0; c < r.nc(); c++) { std::string cx = "cell " + vk::str(c);
    if (q.f) {
      vk::eq((int)m.cell_get_num_faces(c), (int)r.cf[c].size(), "number of faces of a cell", cx);
      for (int ord = 0; ord < 2; ord++) { VI f = junk(); std::vector<dir_t> d = junkd(); m.cell_get_faces_and_dirs(c, &f, &d, ord);
        // as a set of (face, direction): the order is not documented for general cells
        std::multiset<std::pair<int, int>> got, want; vk::eq(f.size(), d.size(), "one direction per face", cx);
        for (size_t i = 0; i < f.size() && i < d.size(); i++) got.insert({f[i], (int)d[i]}); for (size_t i = 0; i < r.cf[c].size(); i++) want.insert({r.cf[c][i], r.cfd[c][i]});
        vk::cmp(); if (got != want) vk::fail("faces of a cell and their directions", cx + " got " + vk::str(f) + vk::str(as(d)) + " expected " + vk::str(r.cf[c]) + vk::str(r.cfd[c]));
        VI f2 = junk(); m.cell_get_faces(c, &f2, ord); vk::eq(vk::sorted(f2), vk::sorted(r.cf[c]), "faces of a cell", cx);
        f2 = junk(); m.cell_get_faces_and_dirs(c, &f2, nullptr, ord); vk::eq(vk::sorted(f2), vk::sorted(r.cf[c]), "faces of a cell without directions", cx); } }
    if (q.e) { VI e = junk(); m.cell_get_edges(c, &e); vk::eq(vk::sorted(e), vk::sorted(r.ce[c]), "edges of a cell", cx);
      if (r.md == 2) { e = junk(); std::vector<dir_t> d = junkd(); m.cell_2D_get_edges_and_dirs(c, &e, &d); vk::eq(e.size(), d.size(), "one direction per edge", cx); std::set<std::pair<int, int>> got, want;
        for (size_t i = 0; i < e.size() && i < d.size(); i++) got.insert({e[i], (int)d[i]}); for (size_t i = 0; i < r.ce[c].size(); i++) want.insert({r.ce[c][i], r.ced[c][i]});
        vk::cmp(); if (got != want) vk::fail("edges of a 2D cell and their directions", cx + " got " + vk::str(e) + vk::str(as(d)) + " expected " + vk::str(r.ce[c]) + vk::str(r.ced[c])); } }
  }
  if (q.f) for (int f = 0; f < r.nf(); f++) { std::string cx = "face " + vk::str(f);
    for (auto t : {AL, OW, GH}) { VI w; for (int c : r.fc[f]) if (tmatch(r.ctype[c], t)) w.push_back(c); VI k = junk(); m.face_get_cells(f, t, &k); vk::eq(vk::sorted(k), vk::sorted(w), "cells of a face", cx + " type " + vk::str((int)t)); }
    if (q.e) for (int ord = 0; ord < 2; ord++) { VI e = junk(); std::vector<dir_t> d = junkd(); m.face_get_edges_and_dirs(f, &e, &d, ord); vk::eq(e.size(), d.size(), "one direction per edge of a face", cx); std::set<std::pair<int, int>> got, want;
      for (size_t i = 0; i < e.size() && i < d.size(); i++) got.insert({e[i], (int)d[i]}); for (size_t i = 0; i < r.fe[f].size(); i++) want.insert({r.fe[f][i], r.fed[f][i]});
      vk::cmp(); if (got != want) vk::fail("edges of a face and their directions", cx + " got " + vk::str(e) + vk::str(as(d)) + " expected " + vk::str(r.fe[f]) + vk::str(r.fed[f]));
      VI e2 = junk(); m.face_get_edges_and_dirs(f, &e2, nullptr, ord); vk::eq(vk::sorted(e2), vk::sorted(r.fe[f]), "edges of a face without directions", cx);
      if (r.md > 1) for (int c : r.fc[f]) { VI ce; m.cell_get_edges(c, &ce); VI mp2 = junk(); mp2.resize(9, -9); m.face_to_cell_edge_map(f, c, &mp2);
        if (vk::eq(mp2.size(), e.size(), "one entry per face edge in the face to cell edge map", cx)) for (size_t i = 0; i < e.size(); i++) vk::ok(mp2[i] >= 0 && mp2[i] < (int)ce.size() && ce[mp2[i]] == e[i], "face to cell edge map", cx + " cell " + vk::str(c) + " edge " + vk::str(i)); } } }
  if (q.e) for (int e = 0; e < r.ne(); e++) { int a = -5, b = -5; m.edge_get_nodes(e, &a, &b); vk::ok(a == r.en[e][0] && b == r.en[e][1], "nodes of an edge", "edge " + vk::str(e) + " got " + vk::str(a) + "," + vk::str(b)); }
  // derived upward/sideways queries go through the same caches
  auto bytype = [&](std::function<void(Entity_type, VI*)> const& get, VI const& all, std::vector<Entity_type> const& ty, std::string const& what, std::string const& cx) { for (auto t : {AL, OW, GH}) { VI w; for (int i : all) if (tmatch(ty[i], t)) w.push_back(i); VI k = junk(); get(t, &k); vk::eq(vk::sorted(k), vk::sorted(w), what, cx); } };
  auto ncs = r.nc_();
  for (int n = 0; n < r.nn(); n++) bytype([&](Entity_type t, VI* k) { m.node_get_cells(n, t, k); }, ncs[n], r.ctype, "cells of a node", "node " + vk::str(n));
}
VK_CHECK("C03", "exploration", "one case = one reference mesh x one request: every 1D/2D/3D/surface mesh of the family (1-6 cells: triangles, quads, pentagons with a straight angle, hexagons, non-convex cells, tets, pyramids, prisms, general polyhedra; and larger ones: nodes and edges with 20 cells, cells with 14 faces, faces with 12 edges, grids of 40 to 70 cells, and 1728 or 34200 cells with more than 65536 edges) x every assignment of cells to owned/ghost for up to 5 cells (thorough; three assignments in quick) x owner of shared entities x boundary ghosts x 3 (thorough 4) patterns of natural face/edge directions x faces and/or edges requested; every entity, every query, every type filter, dirty output lists; compared with the mesh description") {
  Exceptions::set_exception_behavior_raise();
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end()); ds.push_back(chain({0, 1, 2, 4})); ds.push_back(chain({0, 1}));
  for (auto& d : ds) for (auto o : labellings(d.cells.size(), vk::thorough || d.cells.size() <= 3, d.md > 1)) for (int fl = 0; fl < (d.md == 1 ? 1 : vk::thorough ? 4 : 3); fl++) for (int rqm = 1; rqm < 4; rqm++) {
    o.flip = fl == 0 ? 0 : fl == 1 ? 2 : fl == 2 ? 3 : 1; Req q; q.f = rqm & 1; q.e = rqm & 2; if (d.md == 3 && !q.f) continue;
    vk::run(d.name + "/" + o.str() + (q.f ? " f" : "") + (q.e ? " e" : ""), [&] { if (d.cells.size() == 1) vk::trivial(); one(elaborate(d, o), q); }); }
  { auto b = allbig(); auto l = familybig(1); b.insert(b.end(), l.begin(), l.end());
    for (auto& d : b) for (auto o : labellings(d.cells.size(), false, d.md > 1)) for (int fl = 2; fl < 4; fl++) for (int rqm = 1; rqm < 4; rqm++) { o.flip = fl; Req q; q.f = rqm & 1; q.e = rqm & 2; if (d.md == 3 && !q.f) continue; if (d.md == 1 && fl > 2) continue;
      vk::run(d.name + "/" + o.str() + (q.f ? " f" : "") + (q.e ? " e" : ""), [&] { one(elaborate(d, o), q); }); } }
  for (auto g : giants()) { Req q; q.f = q.e = true; vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " many entities", [&] { one(elaborate(g.d, g.o), q); }); }
}
