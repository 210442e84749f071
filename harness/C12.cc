// C12: partitioners.
#include "tiles.hh"
using namespace ref;
typedef Jali::Partitioner_type PT;
struct PM { std::string name; std::function<std::shared_ptr<Jali::Mesh>(Req)> make; int dims[3]; bool regular; int md; };   // regular: dims are cells per direction
static std::vector<VI> parts(Jali::Mesh& m) { std::vector<VI> p; for (auto& t : m.tiles()) p.push_back(t->cells<Entity_type::PARALLEL_OWNED>()); return p; }
static void cover(Jali::Mesh& m, std::vector<VI> const& p, int np, std::string const& cx) {
  vk::states(); VI ow = m.cells<Entity_type::PARALLEL_OWNED>(); std::vector<int> n(m.num_cells<Entity_type::ALL>(), 0); vk::eq((int)p.size(), np, "number of parts", cx);
  for (auto& x : p) for (int c : x) if (vk::ok(c >= 0 && c < (int)n.size(), "cell id", cx)) n[c]++;
  for (size_t c = 0; c < n.size(); c++) { bool o = m.entity_get_type(Entity_kind::CELL, c) == Entity_type::PARALLEL_OWNED; if (o) vk::eq(n[c], 1, "parts holding an owned cell", cx + " cell " + std::to_string(c)); else vk::eq(n[c], 0, "parts holding a ghost cell", cx + " cell " + std::to_string(c)); }
}
static void index(std::vector<VI> const& p, std::string const& cx) { VI all; for (auto& x : p) all.insert(all.end(), x.begin(), x.end()); for (size_t i = 0; i < all.size(); i++) vk::eq(all[i], (int)i, "order of cells over consecutive parts", cx); }
// every part is a full box of cells
static void blocks(Jali::Mesh& m, std::vector<VI> const& p, int sd, bool few, std::string const& cx) {
  for (size_t i = 0; i < p.size(); i++) { if (few && p[i].empty()) continue; if (!vk::ok(!p[i].empty(), "empty block", cx)) continue;
    V3 lo = P(1e99, 1e99, 1e99), hi = P(-1e99, -1e99, -1e99); std::vector<std::set<long>> c(3); double vol = 0;
    for (int k : p[i]) { std::vector<Point> x; m.cell_get_coordinates(k, &x); for (auto& q : x) for (int d = 0; d < sd; d++) { lo[d] = std::min(lo[d], q[d]); hi[d] = std::max(hi[d], q[d]); } V3 a = P(1e99, 1e99, 1e99), b = P(-1e99, -1e99, -1e99); for (auto& q : x) for (int d = 0; d < sd; d++) { a[d] = std::min(a[d], q[d]); b[d] = std::max(b[d], q[d]); } double v = 1; for (int d = 0; d < sd; d++) v *= b[d] - a[d]; vol += v; }
    double v = 1; for (int d = 0; d < sd; d++) v *= hi[d] - lo[d]; vk::ok(vk::near(v, vol, v), "part is not a rectangular block", cx + " part " + std::to_string(i)); }
}
static std::shared_ptr<Jali::Mesh> box3(int a, int b, int c, int kind, Req q) { double L[8][6] = {{0, 0, 0, (double)a, (double)b, (double)c}, {-1, 2, 0.5, -0.7, 2.9, 0.6}, {-3, -2, -1, 5, 7, 0.3}, {1000, 2000, -3000, 1001, 2001, -2999}, {1e6, -1e6, 3e6, 1e6 + 1, -1e6 + 0.7, 3e6 + 2}, {0, 0, 0, 1e-3, 1e-3, 1e-3}, {0, 0, 0, 1e6, 2e6, 3e6}, {-0.1, 0.1, 0.3, 100, 0.2, 0.31}}; double* l = L[kind]; return std::make_shared<Jali::Mesh_simple>(l[0], l[1], l[2], l[3], l[4], l[5], a, b, c, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 0, false, q.part); }
VK_CHECK("C12", "exploration", "all generated 3D grids up to 3x3x3 and long thin ones (thorough 4x4x4), 1D grids up to 12 (thorough 24) cells both uniform (blocks) and graded, planar grids up to 4x4 and hex/prism grids with every single ghost labelling of a family, planar and hexahedral grids in several numberings of cells and nodes (also as the owned part of a larger grid), all irregular families, x all five partitioner types x 1..10 (thorough 16) parts up to the number of cells, with and without faces; grids and other meshes of 20 to 120 cells with up to 64 parts; lines, boxes and other meshes of 33000 to 70000 cells with 3 to 1000 parts; a case is a mesh and partitioner") {
  Exceptions::set_exception_behavior_raise();
  std::vector<PM> ms; int N = vk::thorough ? 4 : 3;
  for (int a = 1; a <= N; a++) for (int b = 1; b <= N; b++) for (int c = 1; c <= N; c++) for (int k = 0; k < 3; k++) { if (k && (a + b + c) % 3 && !vk::thorough) continue; PM p{"box" + std::to_string(a) + std::to_string(b) + std::to_string(c) + "-" + std::to_string(k), [=](Req q) { return box3(a, b, c, k, q); }, {a, b, c}, true, 3}; ms.push_back(p); }
  for (int n : {6, 8, 13}) for (int d = 0; d < 3; d++) { int g[3] = {1, 2, 1}; g[d] = n; int a = g[0], b = g[1], c = g[2]; ms.push_back(PM{"long" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c), [=](Req q) { return box3(a, b, c, 0, q); }, {a, b, c}, true, 3}); }
  for (int n = 1; n <= (vk::thorough ? 24 : 12); n++) for (int kind = 0; kind < 3; kind++) { auto gt = kind == 2 ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN;
    ms.push_back(PM{"line" + std::to_string(n) + "-" + std::to_string(kind), [=](Req q) { std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(kind == 1 ? -1 + i * i * 0.25 : kind == 2 ? 1 + i : -2 + 0.5 * i); return std::static_pointer_cast<Jali::Mesh>(std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 0, false, q.part, gt)); }, {n, 1, 1}, kind != 1, 1}); }
  for (int a = 1; a <= 4; a++) for (int b = 1; b <= 4; b++) { Desc d = quads(a, b); auto L = labellings(a * b, a * b <= 4, true); for (auto& o : L) { Ref r = elaborate(d, o); bool reg = o.ghost.empty(); ms.push_back(PM{r.name, [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {a, b, 1}, reg, 2}); } }
  { Desc d = hexes(3, 2, 2); for (auto& o : labellings(12, false, true)) { Ref r = elaborate(d, o); ms.push_back(PM{r.name, [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {3, 2, 2}, o.ghost.empty(), 3}); } }
  { std::vector<Desc> ds = family2d(); auto e = family3d(); ds.insert(ds.end(), e.begin(), e.end()); auto s = familysurf(); ds.insert(ds.end(), s.begin(), s.end()); for (auto& d : ds) for (auto& o : labellings(d.cells.size(), false, true)) { Ref r = elaborate(d, o); ms.push_back(PM{r.name + " irr", [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {(int)d.cells.size(), 1, 1}, false, r.md}); } }
  // regular grids whose cells, nodes and lists come in any order, also as the owned part of a larger mesh
  for (int k = 1; k <= 3; k++) for (auto& g : std::vector<std::array<int, 3>>{{{2, 1, 0}}, {{1, 3, 0}}, {{3, 2, 0}}, {{4, 3, 0}}, {{6, 5, 0}}, {{2, 2, 1}}, {{3, 1, 2}}, {{3, 2, 2}}, {{4, 3, 5}}}) for (int gh = 0; gh < 3; gh++) { Desc d = g[2] ? hexes(g[0] + (gh > 0), g[1], g[2]) : quads(g[0] + (gh > 0), g[1]); d = renumbered(d, k); Opt o; o.flip = k; o.bghost = gh == 2; if (gh) for (auto& c : d.cells) { double x = 0; for (int n : c.nodes) x = std::max(x, d.X[n][0]); o.ghost.push_back(x > g[0] + 0.5); }
    Ref r = elaborate(d, o); ms.push_back(PM{r.name + " regular", [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {g[0], g[1], std::max(1, g[2])}, true, d.md}); }
  // such grids at any place and of any size
  for (int w = 0; w < 6; w++) for (int k = 0; k <= 2; k++) for (auto& g : std::vector<std::array<int, 3>>{{{3, 2, 0}}, {{4, 3, 0}}, {{3, 2, 2}}}) { double S[6][4] = {{1e-12, 1e-12, 1e-12, 0}, {1e-6, 1e-6, 1e-6, 0}, {1e-4, 1e-4, 1e-4, 50}, {1e9, 1e9, 1e9, 0}, {1e-3, 10, 1, -7}, {1e5, 1e-5, 1, 0}}; Desc d = g[2] ? hexes(g[0], g[1], g[2]) : quads(g[0], g[1]); if (k) d = renumbered(d, k); for (auto& x : d.X) for (int i = 0; i < d.sd; i++) x[i] = x[i] * S[w][i] + S[w][3] * (i + 1);
    Ref r = elaborate(d, Opt()); ms.push_back(PM{r.name + " place " + std::to_string(w), [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {g[0], g[1], std::max(1, g[2])}, true, d.md}); }
  // boxes far from the origin, tiny, huge and lopsided
  for (int v = 3; v < 8; v++) for (int s = 0; s < 6; s++) { int g[6][3] = {{3, 1, 1}, {3, 3, 3}, {7, 2, 1}, {2, 5, 3}, {1, 1, 9}, {6, 5, 4}}; int a = g[s][0], b = g[s][1], c = g[s][2]; ms.push_back(PM{"place" + std::to_string(v) + "-" + std::to_string(s), [=](Req q) { return box3(a, b, c, v, q); }, {a, b, c}, true, 3}); }
  for (int v = 0; v < 3; v++) { int g[3][3] = {{6, 5, 4}, {10, 3, 2}, {1, 9, 8}}; int a = g[v][0], b = g[v][1], c = g[v][2]; ms.push_back(PM{"large" + std::to_string(v), [=](Req q) { return box3(a, b, c, v, q); }, {a, b, c}, true, 3}); }
  for (auto& d : allbig()) for (auto& o : labellings(d.cells.size(), false, false)) { if (!o.shared_owned) continue; Ref r = elaborate(d, o); ms.push_back(PM{r.name + " large", [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {(int)d.cells.size(), 1, 1}, false, r.md}); }
  for (auto& t : ms) for (PT part : {PT::INDEX, PT::BLOCK, PT::METIS, PT::ZOLTAN_GRAPH, PT::ZOLTAN_RCB}) { if (part == PT::BLOCK && !t.regular) continue;
    vk::run(t.name + " partitioner " + std::to_string((int)part), [=] {
      for (int nf = 0; nf < 2; nf++) { Req q; q.f = !nf; q.part = part; if (nf && (t.md == 3 || part == PT::BLOCK)) continue; 
        int n; { Req z = q; auto m = t.make(z); n = m->num_cells<Entity_type::PARALLEL_OWNED>(); }
        std::vector<int> nps; for (int np = 1; np <= std::min(n, vk::thorough ? 16 : 10); np++) nps.push_back(np); if (n > 16) for (int np : {11, 17, 31, 64}) if (np <= n) nps.push_back(np); if (n <= 12) { nps.push_back(n + 1); nps.push_back(2 * n + 3); }   // also more parts than cells
        for (int np : nps) {
          std::string cx = std::to_string(np) + " parts" + (nf ? " no faces" : ""); vk::set_current(cx); q.tiles = np; auto m = t.make(q); auto p = parts(*m); cover(*m, p, np, "");
          if (part == PT::INDEX) index(p, ""); if (part == PT::BLOCK) blocks(*m, p, m->space_dimension(), np > n, ""); if (vk::failed()) return; } } }); }
  // tens of thousands of cells
  std::vector<PM> gs; gs.push_back(PM{"giant line", [=](Req q) { std::vector<double> x; for (int i = 0; i <= 70000; i++) x.push_back(0.25 * i); return std::static_pointer_cast<Jali::Mesh>(std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 0, false, q.part)); }, {70000, 1, 1}, true, 1});
  for (int v = 0; v < 3; v++) { int g[3][3] = {{33, 32, 34}, {300, 11, 10}, {2, 3, 6000}}; int a = g[v][0], b = g[v][1], c = g[v][2]; gs.push_back(PM{"giant box" + std::to_string(v), [=](Req q) { return box3(a, b, c, v % 2, q); }, {a, b, c}, true, 3}); }
  for (auto& g : giants()) { Ref r = elaborate(g.d, g.o); gs.push_back(PM{"giant " + g.d.name + (g.o.ghost.empty() ? "" : " ghosts"), [=](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }, {r.nreal(), 1, 1}, g.o.ghost.empty(), r.md}); }
  for (auto& t : gs) for (PT part : {PT::INDEX, PT::BLOCK, PT::METIS}) for (int np : {3, 64, 300, 1000}) { if (part == PT::BLOCK && !t.regular) continue; if (np > 64 && part == PT::METIS && !vk::thorough) continue;
    vk::run(t.name + " partitioner " + std::to_string((int)part) + " with " + std::to_string(np) + " parts", [=] { Req q; q.part = part; q.tiles = np; auto m = t.make(q); vk::beat(); auto p = parts(*m); cover(*m, p, np, ""); if (part == PT::INDEX) index(p, ""); if (part == PT::BLOCK) blocks(*m, p, m->space_dimension(), false, ""); }); }
}
