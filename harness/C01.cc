// C01: generated 3D box mesh, against index-free geometric/topological oracle
#include "refmesh.hh"
#include "Mesh_simple.hh"
using namespace ref;

static int NX, NY, NZ;
struct Box { double x0, y0, z0, x1, y1, z1; };

static void one(Box const& b, int nx, int ny, int nz, bool gmon) {
  std::vector<JaliGeometry::RegionPtr> none;
  JaliGeometry::GeometricModel gm(3, none);
  Jali::Mesh_simple m(b.x0, b.y0, b.z0, b.x1, b.y1, b.z1, nx, ny, nz, MPI_COMM_WORLD, gmon ? &gm : nullptr);
  int nc = nx * ny * nz, nn = (nx + 1) * (ny + 1) * (nz + 1), nf = (nx + 1) * ny * nz + nx * (ny + 1) * nz + nx * ny * (nz + 1);
  vk::eq((int)m.space_dimension(), 3, "space dimension");
  vk::eq((int)m.manifold_dimension(), 3, "manifold dimension");
  vk::ok(m.geometric_model() == (gmon ? &gm : nullptr), "geometric model pointer");
  vk::eq((int)m.num_cells<Entity_type::ALL>(), nc, "number of cells");
  vk::eq((int)m.num_nodes<Entity_type::ALL>(), nn, "number of nodes");
  vk::eq((int)m.num_faces<Entity_type::ALL>(), nf, "number of faces");
  if (vk::failed()) return;
  VI ids;
  auto iota = [](int n) { VI v(n); for (int i = 0; i < n; i++) v[i] = i; return v; };
  vk::eq(vk::sorted(m.cells<Entity_type::ALL>()), iota(nc), "cell list");
  vk::eq(vk::sorted(m.nodes<Entity_type::ALL>()), iota(nn), "node list");
  vk::eq(vk::sorted(m.faces<Entity_type::ALL>()), iota(nf), "face list");
  vk::eq(vk::sorted(m.cells<Entity_type::PARALLEL_OWNED>()), iota(nc), "owned cell list");
  vk::eq((int)m.cells<Entity_type::PARALLEL_GHOST>().size(), 0, "ghost cell list");
  // nodes: bijection with lattice points
  double hx = (b.x1 - b.x0) / nx, hy = (b.y1 - b.y0) / ny, hz = (b.z1 - b.z0) / nz;
  double sc = std::max(std::max(std::fabs(b.x0) + std::fabs(b.x1), std::fabs(b.y0) + std::fabs(b.y1)), std::fabs(b.z0) + std::fabs(b.z1));
  std::vector<std::array<int, 3>> L(nn); std::set<std::array<int, 3>> seen;
  for (int n = 0; n < nn; n++) {
    Point p; m.node_get_coordinates(n, &p);
    std::array<int, 3> l = {{(int)std::lround((p[0] - b.x0) / hx), (int)std::lround((p[1] - b.y0) / hy), (int)std::lround((p[2] - b.z0) / hz)}};
    L[n] = l;
    peq(p, P(b.x0 + l[0] * hx, b.y0 + l[1] * hy, b.z0 + l[2] * hz), 3, "node position", "node " + vk::str(n), sc);
    bool in = l[0] >= 0 && l[0] <= nx && l[1] >= 0 && l[1] <= ny && l[2] >= 0 && l[2] <= nz;
    vk::ok(in, "node in box", "node " + vk::str(n));
    vk::ok(seen.insert(l).second, "two nodes at the same position", "node " + vk::str(n));
    std::array<double, 3> a3 = {{-1e9, -1e9, -1e9}}; m.node_get_coordinates(n, &a3);
    vk::ok(a3[0] == p[0] && a3[1] == p[1] && a3[2] == p[2], "array form of coordinates", "node " + vk::str(n));
    vk::eq(m.GID(n, Entity_kind::NODE), n, "global id");
    vk::ok(m.entity_get_type(Entity_kind::NODE, n) == Entity_type::PARALLEL_OWNED, "node type");
  }
  if (vk::failed()) return;
  // cells: exodus hex order
  static const int O[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  std::set<std::array<int, 3>> cseen; std::vector<std::array<int, 3>> CL(nc); std::vector<VI> CN(nc);
  for (int c = 0; c < nc; c++) {
    std::string cx = "cell " + vk::str(c);
    VI n = junk(); m.cell_get_nodes(c, &n); CN[c] = n;
    if (!vk::eq((int)n.size(), 8, "nodes per cell", cx)) return;
    for (int i : n) if (!vk::ok(i >= 0 && i < nn, "node id in range", cx)) return;
    CL[c] = L[n[0]];
    for (int k = 0; k < 8; k++) { std::array<int, 3> w = {{CL[c][0] + O[k][0], CL[c][1] + O[k][1], CL[c][2] + O[k][2]}}; vk::ok(L[n[k]] == w, "standard node order of a cell", cx + " node " + vk::str(k)); }
    vk::ok(cseen.insert(CL[c]).second, "two cells at the same place", cx);
    vk::ok(m.cell_get_type(c) == Cell_type::HEX, "cell type", cx);
    vk::ok(m.entity_get_type(Entity_kind::CELL, c) == Entity_type::PARALLEL_OWNED, "parallel type", cx);
    std::vector<Point> cc = junkp(); m.cell_get_coordinates(c, &cc);
    if (vk::eq((int)cc.size(), 8, "cell coordinates count", cx)) for (int k = 0; k < 8; k++) { Point p; m.node_get_coordinates(n[k], &p); peq(cc[k], v3(p), 3, "cell coordinates", cx, sc); }
  }
  if (vk::failed()) return;
  // faces
  std::vector<VI> FN(nf), FCe(nf), NF(nn), NC(nn); std::vector<VI> FD(nf);
  for (int c = 0; c < nc; c++) for (int n : CN[c]) NC[n].push_back(c);
  for (int f = 0; f < nf; f++) {
    VI n = junk(); m.face_get_nodes(f, &n);
    if (!vk::eq((int)n.size(), 4, "nodes per face")) return;
    for (int i : n) { if (!vk::ok(i >= 0 && i < nn, "node id in range")) return; NF[i].push_back(f); }
    FN[f] = n;
    std::vector<Point> fc = junkp(); m.face_get_coordinates(f, &fc);
    if (vk::eq((int)fc.size(), 4, "face coordinates count")) for (int k = 0; k < 4; k++) { Point p; m.node_get_coordinates(n[k], &p); peq(fc[k], v3(p), 3, "face coordinates", "face " + vk::str(f), sc); }
    vk::ok(m.entity_get_type(Entity_kind::FACE, f) == Entity_type::PARALLEL_OWNED, "face type");
  }
  std::vector<VI> CF(nc), CD(nc);
  static const int HF[6][4] = {{0,1,5,4},{1,2,6,5},{2,3,7,6},{0,4,7,3},{0,3,2,1},{4,5,6,7}};  // exodus order, outward
  for (int c = 0; c < nc; c++) for (int ord = 0; ord < 2; ord++) {
    std::string cx = "cell " + vk::str(c) + " ordered " + vk::str(ord);
    VI f = junk(); std::vector<dir_t> d = junkd(); m.cell_get_faces_and_dirs(c, &f, &d, ord);
    if (!vk::eq((int)f.size(), 6, "faces per cell", cx) || !vk::eq((int)d.size(), 6, "dirs per cell", cx)) return;
    VI f2 = junk(); m.cell_get_faces(c, &f2, ord); vk::eq(f2, f, "cell_get_faces agrees", cx);
    vk::eq((int)m.cell_get_num_faces(c), 6, "cell_get_num_faces", cx);
    std::set<int> used;
    for (int k = 0; k < 6; k++) {
      if (!vk::ok(f[k] >= 0 && f[k] < nf, "face id in range", cx)) return;
      VI S = vk::sorted(FN[f[k]]); int hit = -1;
      for (int h = 0; h < 6; h++) { VI w; for (int q = 0; q < 4; q++) w.push_back(CN[c][HF[h][q]]); if (vk::sorted(w) == S) hit = h; }
      if (!vk::ok(hit >= 0, "face of a cell is one of its six quads", cx + " face " + vk::str(f[k]))) return;
      if (ord) vk::eq(hit, k, "standard order of faces", cx);
      vk::ok(used.insert(hit).second, "face listed twice", cx);
      // cyclic order and orientation
      VI w; for (int q = 0; q < 4; q++) w.push_back(CN[c][HF[hit][q]]);
      int dir = 0;
      for (int s = 0; s < 4; s++) { bool fw = true, bw = true; for (int q = 0; q < 4; q++) { if (FN[f[k]][q] != w[(s + q) % 4]) fw = false; if (FN[f[k]][q] != w[(s + 4 - q) % 4]) bw = false; } if (fw) dir = 1; if (bw) dir = -1; }
      vk::ok(dir != 0, "face nodes go around the face", cx + " face " + vk::str(f[k]));
      vk::eq((int)d[k], dir, "direction of face in cell", cx + " face " + vk::str(f[k]));
      if (!ord) { FCe[f[k]].push_back(c); FD[f[k]].push_back(d[k]); CF[c].push_back(f[k]); CD[c].push_back(d[k]); }
    }
  }
  if (vk::failed()) return;
  for (int f = 0; f < nf; f++) {
    std::string cx = "face " + vk::str(f);
    vk::ok(FCe[f].size() == 1 || FCe[f].size() == 2, "face used by one or two cells", cx);
    if (FCe[f].size() == 2) vk::ok(FD[f][0] == -FD[f][1], "opposite directions on both sides", cx);
    VI k = junk(); m.face_get_cells(f, Entity_type::ALL, &k); vk::eq(vk::sorted(k), vk::sorted(FCe[f]), "face_get_cells", cx);
    k = junk(); m.face_get_cells(f, Entity_type::PARALLEL_OWNED, &k); vk::eq(vk::sorted(k), vk::sorted(FCe[f]), "face_get_cells owned", cx);
    k = junk(); m.face_get_cells(f, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "face_get_cells ghost", cx);
  }
  for (int n = 0; n < nn; n++) {
    std::string cx = "node " + vk::str(n);
    for (Entity_type t : {Entity_type::ALL, Entity_type::PARALLEL_OWNED}) {
      VI k = junk(); m.node_get_cells(n, t, &k); vk::eq(vk::sorted(k), vk::sorted(NC[n]), "node_get_cells", cx);
      k = junk(); m.node_get_faces(n, t, &k); vk::eq(vk::sorted(k), vk::sorted(NF[n]), "node_get_faces", cx);
      for (int c : NC[n]) {
        VI w; for (int f : CF[c]) if (std::find(FN[f].begin(), FN[f].end(), n) != FN[f].end()) w.push_back(f);
        k = junk(); m.node_get_cell_faces(n, c, t, &k); vk::eq(vk::sorted(k), vk::sorted(w), "node_get_cell_faces", cx + " cell " + vk::str(c));
      }
    }
    VI k = junk(); m.node_get_cells(n, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "node_get_cells ghost", cx);
    k = junk(); m.node_get_faces(n, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "node_get_faces ghost", cx);
    for (int c : NC[n]) { k = junk(); m.node_get_cell_faces(n, c, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "node_get_cell_faces ghost", cx); }
  }
  for (int c = 0; c < nc; c++) {
    std::string cx = "cell " + vk::str(c);
    VI fa, na;   // face neighbours in face order (documented for ALL)
    for (int f : CF[c]) for (int k : FCe[f]) if (k != c) fa.push_back(k);
    std::set<int> ns; for (int n : CN[c]) for (int k : NC[n]) if (k != c) ns.insert(k);
    na.assign(ns.begin(), ns.end());
    VI k = junk(); m.cell_get_face_adj_cells(c, Entity_type::ALL, &k); vk::eq(k, fa, "cell_get_face_adj_cells in face order", cx);
    k = junk(); m.cell_get_face_adj_cells(c, Entity_type::PARALLEL_OWNED, &k); vk::eq(vk::sorted(k), vk::sorted(fa), "cell_get_face_adj_cells owned", cx);
    k = junk(); m.cell_get_face_adj_cells(c, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "cell_get_face_adj_cells ghost", cx);
    k = junk(); m.cell_get_node_adj_cells(c, Entity_type::ALL, &k); vk::eq(vk::sorted(k), na, "cell_get_node_adj_cells", cx);
    k = junk(); m.cell_get_node_adj_cells(c, Entity_type::PARALLEL_OWNED, &k); vk::eq(vk::sorted(k), na, "cell_get_node_adj_cells owned", cx);
    k = junk(); m.cell_get_node_adj_cells(c, Entity_type::PARALLEL_GHOST, &k); vk::eq(k, VI(), "cell_get_node_adj_cells ghost", cx);
    // geometry of the boxes
    vk::feq(m.cell_volume(c), hx * hy * hz, "cell volume", cx, 1e-9);
    peq(m.cell_centroid(c), P(b.x0 + (CL[c][0] + .5) * hx, b.y0 + (CL[c][1] + .5) * hy, b.z0 + (CL[c][2] + .5) * hz), 3, "cell centroid", cx, sc);
  }
}
VK_CHECK("C01", "exploration", "one case = one generated mesh (box, nx, ny, nz, geometric model or not), all nx,ny,nz up to 4 (quick) or 6 (thorough) and large ones with unlike sizes (up to 1100 cells, and 35904; thorough 4080, and 68880) x 4 boxes, and sizes up to 3 x 5 boxes that are tiny, huge, flat or far from the origin; every entity and every query of it is compared with an oracle built from node positions only; non-trivial = more than one cell") {
  int N = vk::thorough ? 6 : 4;
  std::vector<Box> boxes = {{0,0,0,1,1,1}, {-1,2,-3.5,3,2.5,1}, {10,20,30,10.5,22,37}, {-4,-4,-4,-1,-2,-3}};
  for (int s = 3; s <= 3 * N; s++)       // small meshes first
    for (int nx = 1; nx <= N; nx++) for (int ny = 1; ny <= N; ny++) { int nz = s - nx - ny; if (nz < 1 || nz > N) continue;
      for (size_t b = 0; b < boxes.size(); b++) for (int g = 0; g < 2; g++) {
        if (g && b) continue;
        vk::run("box" + vk::str(b) + " " + vk::str(nx) + "x" + vk::str(ny) + "x" + vk::str(nz) + (g ? " gm" : ""), [&] { if (nx * ny * nz == 1) vk::trivial(); one(boxes[b], nx, ny, nz, g); });
      } }
  // boxes of unusual extent or place
  std::vector<Box> odd = {{0,0,0,1e-6,2e-6,3e-6}, {-1e6,0,1e5,2e6,3e6,4e5}, {1000,2000,-3000,1001,2000.5,-2998}, {0,0,0,100,1,0.01}, {-0.1,-0.7,-0.3,0.2,0.1,0}};
  for (int nx = 1; nx <= 3; nx++) for (int ny = 1; ny <= 3; ny++) for (int nz = 1; nz <= 3; nz++) for (size_t b = 0; b < odd.size(); b++) vk::run("odd box" + vk::str(b) + " " + vk::str(nx) + "x" + vk::str(ny) + "x" + vk::str(nz), [&] { one(odd[b], nx, ny, nz, b == 0); });
  // sizes with one long direction, no two directions alike, and more than 1000 cells
  std::vector<std::array<int, 3>> big = {{{20,1,1}},{{1,20,1}},{{1,1,20}},{{12,3,2}},{{2,12,3}},{{3,2,12}},{{17,2,5}},{{5,17,2}},{{2,5,17}},{{7,8,9}},{{9,7,8}},{{8,9,7}},{{40,2,1}},{{1,40,2}},{{2,1,40}},{{11,10,10}}};
  if (vk::thorough) { big.push_back({{300,1,2}}); big.push_back({{2,300,1}}); big.push_back({{1,2,300}}); big.push_back({{16,17,15}}); big.push_back({{24,23,5}}); big.push_back({{5,24,23}}); big.push_back({{41,1,41}}); }
  for (auto& g : big) for (size_t b = 0; b < boxes.size(); b++) vk::run("large, box" + vk::str(b) + " " + vk::str(g[0]) + "x" + vk::str(g[1]) + "x" + vk::str(g[2]), [&] { one(boxes[b], g[0], g[1], g[2], b == 1); });
  vk::run("many entities, box1 33x32x34", [&] { one(boxes[1], 33, 32, 34, 0); });
  if (vk::thorough) vk::run("many entities, box2 42x41x40", [&] { one(boxes[2], 42, 41, 40, 1); });
}
