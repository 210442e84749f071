// C06: topology of sides, wedges and corners
#include "tiles.hh"
using namespace ref;
static Entity_type const OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST, BG = Entity_type::BOUNDARY_GHOST, AL = Entity_type::ALL;
static bool tmatch(Entity_type a, Entity_type t) { return t == AL || a == t; }
static void one(Jali::Mesh const& m, int md, Req const& q) {
  int nc = m.num_cells<AL>(), nn = m.num_nodes<AL>(); bool W = q.w || q.c, C = q.c; std::set<int> allS; std::map<int, int> cellOf;
  struct S { int c, f, e, n0, n1; }; std::map<int, S> sd;
  for (int c = 0; c < nc; c++) { std::string cx = "cell " + vk::str(c); VI cn; m.cell_get_nodes(c, &cn);
    VI s = junk(); m.cell_get_sides(c, &s); std::map<std::pair<int, int>, VI> want;   // (face, edge) -> expected node order
    if (md == 1) for (int n : cn) want[{-1, n}] = {n, n};
    else { VI f; std::vector<dir_t> fd; m.cell_get_faces_and_dirs(c, &f, &fd); for (size_t i = 0; i < f.size(); i++) { VI e; std::vector<dir_t> ed; m.face_get_edges_and_dirs(f[i], &e, &ed);
        for (size_t j = 0; j < e.size(); j++) { int a, b; m.edge_get_nodes(e[j], &a, &b); bool fw = md == 2 ? fd[i] == 1 : (fd[i] * ed[j] < 0); want[{f[i], e[j]}] = fw ? VI{a, b} : VI{b, a}; } } }
    if (!vk::eq(s.size(), want.size(), "number of sides of a cell", cx)) return;
    for (int x : s) { std::string sx = cx + " side " + vk::str(x); if (!vk::ok(allS.insert(x).second, "side belongs to one cell and is listed once", sx)) return; cellOf[x] = c;
      S d{m.side_get_cell(x), m.side_get_face(x), m.side_get_edge(x), m.side_get_node(x, 0), m.side_get_node(x, 1)}; sd[x] = d;
      vk::eq(d.c, c, "cell of a side", sx); auto k = std::make_pair(md == 1 ? -1 : d.f, md == 1 ? d.n0 : d.e); auto it = want.find(k);
      if (!vk::ok(it != want.end(), "a side stands for one face-edge pair of its cell", sx)) return;
      vk::eq(VI({d.n0, d.n1}), it->second, "order of the nodes of a side", sx); want.erase(it);
      if (md == 1) { vk::eq(d.e, d.n0, "edge of a 1D side", sx); VI fn; m.face_get_nodes(d.f, &fn); vk::eq(fn, VI{d.n0}, "face of a 1D side", sx); }
      else { int a, b; m.edge_get_nodes(d.e, &a, &b); vk::eq(m.side_get_edge_use(x), (int)(d.n0 == a && d.n1 == b), "sense in which a side uses its edge", sx); }
      if (W) for (int i = 0; i < 2; i++) { int w = m.side_get_wedge(x, i); vk::eq(m.wedge_get_side(w), x, "side of a wedge", sx); vk::eq(m.wedge_get_node(w), i ? d.n1 : d.n0, "node of a wedge", sx); vk::eq(m.wedge_get_cell(w), c, "cell of a wedge", sx); vk::eq(m.wedge_get_face(w), d.f, "face of a wedge", sx); vk::eq(m.wedge_get_edge(w), d.e, "edge of a wedge", sx); vk::eq(m.wedge_get_adjacent_wedge(w), m.side_get_wedge(x, 1 - i), "adjacent wedge", sx); } }
    if (W) { VI w = junk(); m.cell_get_wedges(c, &w); VI ww; for (int x : s) for (int i = 0; i < 2; i++) ww.push_back(m.side_get_wedge(x, i)); vk::eq(vk::sorted(w), vk::sorted(ww), "wedges of a cell", cx); }
  }
  vk::eq((int)allS.size(), (int)m.num_sides<AL>(), "every side belongs to a cell");
  if (vk::failed()) return;
  // opposite sides and wedges
  std::map<std::pair<int, int>, VI> fe; for (auto& k : sd) fe[{k.second.f, k.second.e}].push_back(k.first);
  for (auto& k : sd) { std::string sx = "side " + vk::str(k.first); VI o; for (int x : fe[{k.second.f, k.second.e}]) if (sd[x].c != k.second.c) o.push_back(x);
    int got = m.side_get_opposite_side(k.first); vk::eq(got, o.empty() ? -1 : o[0], "opposite side", sx);
    VI fcs; m.face_get_cells(k.second.f, AL, &fcs); vk::eq(got == -1, fcs.size() == 1, "opposite side absent exactly at faces with one cell", sx);
    if (got != -1) { vk::eq(m.side_get_opposite_side(got), k.first, "opposite sides are mutual", sx); vk::ok(m.side_get_cell(got) != k.second.c && m.side_get_face(got) == k.second.f && m.side_get_edge(got) == k.second.e && m.side_get_node(got, 0) == k.second.n1 && m.side_get_node(got, 1) == k.second.n0, "opposite side uses the same edge the other way", sx); }
    if (W) for (int i = 0; i < 2; i++) { int w = m.side_get_wedge(k.first, i), ow = m.wedge_get_opposite_wedge(w); if (got == -1) vk::eq(ow, -1, "opposite wedge of a boundary wedge", sx); else { vk::ok(m.wedge_get_side(ow) == got && m.wedge_get_node(ow) == m.wedge_get_node(w), "opposite wedge has the same node in the opposite side", sx); vk::eq(m.wedge_get_opposite_wedge(ow), w, "opposite wedges are mutual", sx); } } }
  if (!C) return;
  std::set<int> allC; std::vector<VI> atnode(nn); std::map<int, int> cc;
  for (int c = 0; c < nc; c++) { std::string cx = "cell " + vk::str(c); VI cn, s; m.cell_get_nodes(c, &cn); m.cell_get_sides(c, &s); VI k = junk(); m.cell_get_corners(c, &k); VI at;
    for (int x : k) { std::string kx = cx + " corner " + vk::str(x); vk::ok(allC.insert(x).second, "corner belongs to one cell and is listed once", kx); vk::eq(m.corner_get_cell(x), c, "cell of a corner", kx); int n = m.corner_get_node(x); at.push_back(n); if (!vk::ok(n >= 0 && n < nn, "node of a corner", kx)) return; atnode[n].push_back(x); cc[x] = c;
      vk::eq(m.cell_get_corner_at_node(c, n), x, "corner of a cell at a node", kx); VI want; for (int y : s) for (int i = 0; i < 2; i++) { int w = m.side_get_wedge(y, i); if (m.wedge_get_node(w) == n) { want.push_back(w); vk::eq(m.wedge_get_corner(w), x, "corner of a wedge", kx); } }
      VI w = junk(); m.corner_get_wedges(x, &w); vk::eq(vk::sorted(w), vk::sorted(want), "wedges of a corner", kx); }
    vk::eq(vk::sorted(at), vk::sorted(cn), "one corner per node of a cell", cx); }
  vk::eq((int)allC.size(), (int)m.num_corners<AL>(), "every corner belongs to a cell");
  for (int n = 0; n < nn; n++) for (auto t : {AL, OW, GH, BG}) { std::string nx = "node " + vk::str(n) + " type " + vk::str((int)t); VI want, ww; for (int x : atnode[n]) if (tmatch(m.entity_get_type(Entity_kind::CELL, cc[x]), t)) { want.push_back(x); VI w; m.corner_get_wedges(x, &w); ww.insert(ww.end(), w.begin(), w.end()); }
    VI k = junk(); m.node_get_corners(n, t, &k); vk::eq(vk::sorted(k), vk::sorted(want), "corners of a node", nx); k = junk(); m.node_get_wedges(n, t, &k); vk::eq(vk::sorted(k), vk::sorted(ww), "wedges of a node", nx); }
}
VK_CHECK("C06", "exploration", "one case = one mesh x requested subcells (sides; sides and wedges; all): generated 1D meshes of 1-6 (thorough 12) cells, 1D meshes whose last cells are ghosts and every 2D/3D/surface mesh of the reference family x every assignment of cells to owned/ghost for up to 5 cells (thorough; 3 in quick) x owner of shared entities x boundary ghosts x 3 (thorough 4) natural-direction patterns; meshes of 1728, 34200 and 70000 cells; every side, wedge, corner and node and every query on them") {
  Exceptions::set_exception_behavior_raise();
  for (int n = 1; n <= (vk::thorough ? 12 : 6); n++) for (int l = 0; l < 3; l++) vk::run("simple" + vk::str(n) + " l" + vk::str(l), [&] { if (n == 1) vk::trivial(); Req q; q.e = q.s = true; q.w = l > 0; q.c = l > 1; std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(i + 0.1 * i * i);
    for (auto gt : {JaliGeometry::Geom_type::CARTESIAN, JaliGeometry::Geom_type::SPHERICAL}) { Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, q.w, q.c, 0, 0, 0, false, Jali::Partitioner_type::INDEX, gt); one(m, 1, q); } });
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end());
  for (auto& d : ds) for (auto o : labellings(d.cells.size(), vk::thorough || d.cells.size() <= 3, true)) for (int fl = 0; fl < (vk::thorough ? 4 : 3); fl++) for (int l = 0; l < 3; l++) {
    o.flip = fl == 0 ? 0 : fl == 1 ? 2 : fl == 2 ? 3 : 1; Req q; q.e = q.s = true; q.w = l > 0; q.c = l > 1;
    vk::run(d.name + "/" + o.str() + " l" + vk::str(l), [&] { if (d.cells.size() == 1 && !o.bghost) vk::trivial(); auto m = make(elaborate(d, o), q); one(*m, d.md, q); }); }
  for (int n = 1; n <= (vk::thorough ? 9 : 5); n++) for (int g = 0; g < n; g++) for (int so = 0; so < 2; so++) for (int l = 0; l < 3; l++) { if (so && !g) continue; Opt o; o.shared_owned = !so; o.ghost.assign(n, 0); for (int i = n - g; i < n; i++) o.ghost[i] = 1; Req q; q.e = q.s = true; q.w = l > 0; q.c = l > 1;   // in 1D neighbouring cells have consecutive numbers: the last ones are ghosts
    vk::run("chain" + vk::str(n) + "/" + o.str() + " l" + vk::str(l), [&] { if (n == 1) vk::trivial(); std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(i + 0.1 * i * i); auto m = make(elaborate(chain(x), o), q); one(*m, 1, q); }); }
  for (auto& d : allbig()) for (auto o : labellings(d.cells.size(), false, true)) for (int l = 0; l < 3; l++) { o.flip = 3; Req q; q.e = q.s = true; q.w = l > 0; q.c = l > 1;
    vk::run(d.name + "/" + o.str() + " l" + vk::str(l), [&] { auto m = make(elaborate(d, o), q); one(*m, d.md, q); }); }
  vk::run("simple70", [&] { Req q; q.e = q.s = q.w = q.c = true; std::vector<double> x; for (int i = 0; i <= 70; i++) x.push_back(i + 0.1 * i * i); Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, true, true); one(m, 1, q); });
  for (auto g : giants()) vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " many entities", [&] { auto m = make(elaborate(g.d, g.o), Req::all()); one(*m, g.d.md, Req::all()); });
  vk::run("simple70000", [&] { std::vector<double> x; for (int i = 0; i <= 70000; i++) x.push_back(i); Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, true, true); one(m, 1, Req::all()); });
}
