// C02: generated 1D mesh against an oracle made of the list of positions only
#include "refmesh.hh"
#include "Mesh_simple.hh"
using namespace ref;
static Entity_type const OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST, AL = Entity_type::ALL;
static void one(std::vector<double> const& x, bool sph, bool faces, bool edges) {
  int n = x.size() - 1; double sc = std::fabs(x[0]) + std::fabs(x[n]);
  auto gt = sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN;
  Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, faces, edges, false, false, false, 0, 0, 0, false, Jali::Partitioner_type::INDEX, gt);
  auto iota = [](int k) { VI v(k); for (int i = 0; i < k; i++) v[i] = i; return v; };
  vk::eq((int)m.space_dimension(), 1, "space dimension"); vk::eq((int)m.manifold_dimension(), 1, "manifold dimension"); vk::ok(m.geom_type() == gt, "geometry type");
  vk::eq(vk::sorted(m.cells<AL>()), iota(n), "cell list"); vk::eq(vk::sorted(m.nodes<AL>()), iota(n + 1), "node list");
  vk::eq((int)m.num_cells<AL>(), n, "number of cells"); vk::eq((int)m.num_nodes<AL>(), n + 1, "number of nodes");
  vk::eq(vk::sorted(m.cells<OW>()), iota(n), "owned cells"); vk::eq(m.cells<GH>(), VI(), "ghost cells");
  if (faces) { vk::eq(vk::sorted(m.faces<AL>()), iota(n + 1), "face list"); vk::eq((int)m.num_faces<AL>(), n + 1, "number of faces"); }
  if (edges) { vk::eq(vk::sorted(m.edges<AL>()), iota(n + 1), "edge list"); vk::eq((int)m.num_edges<AL>(), n + 1, "number of edges"); }
  if (vk::failed()) return;
  double PI4 = 4.0 * std::acos(-1.0);
  auto vol = [&](double a, double b) { return sph ? PI4 / 3 * (b * b * b - a * a * a) : b - a; };
  auto area = [&](double a) { return sph ? PI4 * a * a : 1.0; };
  // node ids <-> positions
  std::vector<int> pos(n + 1, -1), nodeat(n + 1, -1);
  for (int i = 0; i <= n; i++) { Point p; m.node_get_coordinates(i, &p); double d = -1e99; m.node_get_coordinates(i, &d); vk::ok(p.dim() == 1 && p[0] == d, "two forms of node coordinates");
    int k = std::find(x.begin(), x.end(), d) - x.begin(); if (!vk::ok(k <= n && nodeat[k] < 0, "node position is one of the positions given", "node " + vk::str(i) + " at " + vk::str(d))) return;
    pos[i] = k; nodeat[k] = i; vk::ok(m.entity_get_type(Entity_kind::NODE, i) == OW, "node type"); vk::eq(m.GID(i, Entity_kind::NODE), i, "global id"); }
  std::vector<int> cellat(n, -1), left(n, -1);
  for (int c = 0; c < n; c++) { std::string cx = "cell " + vk::str(c); VI v = junk(); m.cell_get_nodes(c, &v);
    if (!vk::eq((int)v.size(), 2, "nodes per cell", cx)) return;
    if (!vk::ok(v[0] >= 0 && v[0] <= n && v[1] >= 0 && v[1] <= n, "node id in range", cx)) return;
    vk::eq(pos[v[1]], pos[v[0]] + 1, "a cell is one gap, left node first", cx); if (vk::failed()) return;
    left[c] = pos[v[0]]; vk::eq(cellat[left[c]], -1, "two cells in one gap", cx); cellat[left[c]] = c;
    std::vector<Point> cc = junkp(); m.cell_get_coordinates(c, &cc); if (vk::eq((int)cc.size(), 2, "cell coordinates", cx)) { peq(cc[0], P(x[left[c]], 0, 0), 1, "cell coordinates", cx, sc); peq(cc[1], P(x[left[c] + 1], 0, 0), 1, "cell coordinates", cx, sc); }
    vk::feq(m.cell_volume(c), vol(x[left[c]], x[left[c] + 1]), "cell volume", cx, 1e-9); vk::feq(m.cell_volume(c, true), vol(x[left[c]], x[left[c] + 1]), "cell volume recomputed", cx, 1e-9);
    peq(m.cell_centroid(c), P(0.5 * (x[left[c]] + x[left[c] + 1]), 0, 0), 1, "cell centroid", cx, sc); peq(m.cell_centroid(c, true), P(0.5 * (x[left[c]] + x[left[c] + 1]), 0, 0), 1, "cell centroid recomputed", cx, sc);
    vk::ok(m.entity_get_type(Entity_kind::CELL, c) == OW, "cell type", cx);
    if (edges) { VI e = junk(); m.cell_get_edges(c, &e); vk::eq(vk::sorted(e), vk::sorted(v), "edges of a cell", cx); } }
  if (vk::failed()) return;
  auto cellsat = [&](int k) { VI r; if (k > 0) r.push_back(cellat[k - 1]); if (k < n) r.push_back(cellat[k]); return vk::sorted(r); };
  std::vector<int> fpos(n + 1, -1);
  if (faces) {
    std::set<int> seen;
    for (int f = 0; f <= n; f++) { std::string cx = "face " + vk::str(f); VI v = junk(); m.face_get_nodes(f, &v); if (!vk::eq((int)v.size(), 1, "nodes per face", cx)) return; if (!vk::ok(v[0] >= 0 && v[0] <= n, "node id in range", cx)) return;
      fpos[f] = pos[v[0]]; vk::ok(seen.insert(fpos[f]).second, "two faces at the same position", cx);
      std::vector<Point> fc = junkp(); m.face_get_coordinates(f, &fc); if (vk::eq((int)fc.size(), 1, "face coordinates", cx)) peq(fc[0], P(x[fpos[f]], 0, 0), 1, "face coordinates", cx, sc);
      VI k = junk(); m.face_get_cells(f, AL, &k); vk::eq(vk::sorted(k), cellsat(fpos[f]), "cells of a face", cx); k = junk(); m.face_get_cells(f, OW, &k); vk::eq(vk::sorted(k), cellsat(fpos[f]), "owned cells of a face", cx); k = junk(); m.face_get_cells(f, GH, &k); vk::eq(k, VI(), "ghost cells of a face", cx);
      vk::ok(m.entity_get_type(Entity_kind::FACE, f) == OW, "face type", cx);
      for (int r = 0; r < 2; r++) { vk::feq(m.face_area(f, r), area(x[fpos[f]]), "face area", cx, 1e-9); peq(m.face_centroid(f, r), P(x[fpos[f]], 0, 0), 1, "face centroid", cx, sc);
        if (area(x[fpos[f]]) > 0) { int o = 7; vk::feq(std::fabs(m.face_normal(f, r)[0]), area(x[fpos[f]]), "size of the face normal", cx, 1e-9);
        for (int c : cellsat(fpos[f])) { bool right = left[c] + 1 == fpos[f]; Point nn = m.face_normal(f, r, c, &o); peq(nn, P(right ? area(x[fpos[f]]) : -area(x[fpos[f]]), 0, 0), 1, "normal points out of the cell", cx + " cell " + vk::str(c), 1e-9); vk::eq(o, right ? 1 : -1, "orientation of the normal", cx); } } } }
    for (int c = 0; c < n; c++) for (int ord = 0; ord < 2; ord++) { std::string cx = "cell " + vk::str(c); VI f = junk(); std::vector<dir_t> d = junkd(); m.cell_get_faces_and_dirs(c, &f, &d, ord);
      if (!vk::ok(f.size() == 2 && d.size() == 2, "faces per cell", cx)) return; VI f2 = junk(); m.cell_get_faces(c, &f2, ord); vk::eq(f2, f, "cell_get_faces agrees", cx); vk::eq((int)m.cell_get_num_faces(c), 2, "number of faces", cx);
      std::set<std::pair<int, int>> got, want; for (int i = 0; i < 2; i++) { if (!vk::ok(f[i] >= 0 && f[i] <= n, "face id in range", cx)) return; got.insert({fpos[f[i]], (int)d[i]}); } want.insert({left[c], -1}); want.insert({left[c] + 1, 1}); vk::ok(got == want, "faces of a cell with directions", cx); }
  }
  std::map<int, VI> fat; if (faces) for (int f = 0; f <= n; f++) fat[fpos[f]].push_back(f);
  for (int i = 0; i <= n; i++) { std::string cx = "node " + vk::str(i); VI w = cellsat(pos[i]);
    for (auto t : {AL, OW, GH}) { VI k = junk(); m.node_get_cells(i, t, &k); vk::eq(vk::sorted(k), t == GH ? VI() : w, "cells of a node", cx);
      if (faces) { VI const& fw = fat[pos[i]]; k = junk(); m.node_get_faces(i, t, &k); vk::eq(vk::sorted(k), t == GH ? VI() : fw, "faces of a node", cx);
        for (int c : w) { k = junk(); m.node_get_cell_faces(i, c, t, &k); vk::eq(vk::sorted(k), t == GH ? VI() : fw, "faces of a cell at a node", cx + " cell " + vk::str(c)); } } } }
  for (int c = 0; c < n; c++) { std::string cx = "cell " + vk::str(c); VI w; if (left[c] > 0) w.push_back(cellat[left[c] - 1]); if (left[c] + 1 < n) w.push_back(cellat[left[c] + 1]); w = vk::sorted(w);
    for (auto t : {AL, OW, GH}) { VI k = junk(); if (faces) { m.cell_get_face_adj_cells(c, t, &k); vk::eq(vk::sorted(k), t == GH ? VI() : w, "cells next to a cell across faces", cx); } k = junk(); m.cell_get_node_adj_cells(c, t, &k); vk::eq(vk::sorted(k), t == GH ? VI() : w, "cells next to a cell across nodes", cx); } }
  if (edges) for (int e = 0; e <= n; e++) { int a = -5, b = -5; m.edge_get_nodes(e, &a, &b); vk::ok(a == b && a >= 0 && a <= n, "edge of a 1D mesh is a node", "edge " + vk::str(e)); for (int r = 0; r < 2; r++) vk::feq(m.edge_length(e, r), 0.0, "length of a degenerate edge", "", 1e-300); }
}
VK_CHECK("C02", "exploration", "one case = one generated 1D mesh: every increasing position list made of a start value and n gaps from {1, 1/4, 3} (all gap sequences) with n up to 7 (thorough 10), and every length up to 70 (thorough 260) with three periodic gap patterns, 1000, 32768 and 70000 cells, tiny, huge and far away positions, starts {0, 2.5, -3 (Cartesian only)}, Cartesian and spherical, with and without faces and edges; every entity and every query is compared with an oracle made of the position list; non-trivial = more than one cell") {
  Exceptions::set_exception_behavior_raise();
  int N = vk::thorough ? 10 : 7; double g[3] = {1, 0.25, 3};
  for (int n = 1; n <= N; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= 3;
    for (int a = 0; a < tot; a++) for (int s = 0; s < 3; s++) for (int sph = 0; sph < (s == 2 ? 1 : 2); sph++) for (int r = 0; r < 4; r++) {
      std::vector<double> x; x.push_back(s == 0 ? 0.0 : s == 1 ? 2.5 : -3.0); int y = a; for (int i = 0; i < n; i++) { x.push_back(x.back() + g[y % 3]); y /= 3; }
      vk::run("x" + vk::str(x) + (sph ? " spherical" : "") + (r & 1 ? " no faces" : "") + (r & 2 ? " edges" : ""), [&] { if (n == 1) vk::trivial(); one(x, sph, !(r & 1), r & 2); }); } }
  // very small and large gaps, positions far from the origin
  for (int n = 1; n <= 6; n++) for (int v = 0; v < 4; v++) for (int sph = 0; sph < 2; sph++) for (int r = 0; r < 4; r++) {
    std::vector<double> x; x.push_back(v == 2 ? 1000 : v == 3 ? 1e-3 : 0.0); for (int i = 0; i < n; i++) x.push_back(x.back() + (v == 0 ? 1e-6 * (1 + i % 3) : v == 1 ? 1e6 * (1 + (i + 1) % 2) : v == 2 ? 0.3 + 0.1 * i : std::pow(10.0, i - 3)));
    vk::run("odd " + vk::str(v) + " " + vk::str(n) + (sph ? " spherical" : "") + (r & 1 ? " no faces" : "") + (r & 2 ? " edges" : ""), [&] { one(x, sph, !(r & 1), r & 2); }); }
  // long meshes: every length up to a bound, a few periodic gap patterns
  int L = vk::thorough ? 260 : 70;
  for (int n = N + 1; n <= L; n++) for (int a = 0; a < 3; a++) for (int sph = 0; sph < 2; sph++) for (int r = 0; r < 4; r++) {
    std::vector<double> x; x.push_back(a ? 1.5 : 0.0); for (int i = 0; i < n; i++) x.push_back(x.back() + g[a == 0 ? 0 : a == 1 ? i % 3 : (i * i + i / 4) % 3]);
    vk::run("length " + vk::str(n) + " pattern " + vk::str(a) + (sph ? " spherical" : "") + (r & 1 ? " no faces" : "") + (r & 2 ? " edges" : ""), [&] { one(x, sph, !(r & 1), r & 2); }); }
  for (int sph = 0; sph < 2; sph++) for (int n : {1000, 32768, 70000}) vk::run("length " + vk::str(n) + (sph ? " spherical" : ""), [&] { std::vector<double> x = {0.5}; for (int i = 0; i < n; i++) x.push_back(x.back() + g[i % 3]); one(x, sph, true, true); });
}
