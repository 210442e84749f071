// Shared by the tile checks: generic access to tile lists, user-made tiles
#ifndef TILES_HH
#define TILES_HH
#include "refmesh.hh"
#include "Mesh_simple.hh"
namespace ref {
typedef std::shared_ptr<Jali::MeshTile> TileP;
static Entity_kind const KINDS[7] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE, Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
static char const* const KN[7] = {"cell", "node", "face", "edge", "side", "wedge", "corner"};
template <Entity_type T, class O> VI const& lst(O const& o, int k) {
  switch (k) { case 0: return o.template cells<T>(); case 1: return o.template nodes<T>(); case 2: return o.template faces<T>(); case 3: return o.template edges<T>();
    case 4: return o.template sides<T>(); case 5: return o.template wedges<T>(); default: return o.template corners<T>(); } }
template <Entity_type T, class O> int num(O const& o, int k) {
  switch (k) { case 0: return o.template num_cells<T>(); case 1: return o.template num_nodes<T>(); case 2: return o.template num_faces<T>(); case 3: return o.template num_edges<T>();
    case 4: return o.template num_sides<T>(); case 5: return o.template num_wedges<T>(); default: return o.template num_corners<T>(); } }
template <class O> VI list(O const& o, int k, Entity_type t) { return t == Entity_type::PARALLEL_OWNED ? lst<Entity_type::PARALLEL_OWNED>(o, k) : t == Entity_type::PARALLEL_GHOST ? lst<Entity_type::PARALLEL_GHOST>(o, k) : lst<Entity_type::ALL>(o, k); }
template <class O> int numt(O const& o, int k, Entity_type t) { return t == Entity_type::PARALLEL_OWNED ? num<Entity_type::PARALLEL_OWNED>(o, k) : t == Entity_type::PARALLEL_GHOST ? num<Entity_type::PARALLEL_GHOST>(o, k) : num<Entity_type::ALL>(o, k); }
inline bool asked(Req const& q, int k) { return k < 2 || (k == 2 && q.f) || (k == 3 && q.e) || (k == 4 && q.s) || (k == 5 && q.w) || (k == 6 && q.c); }
// entities of kind k of a cell, from the mesh's own downward queries
inline VI ofcell(Jali::Mesh const& m, int c, int k) {
  VI v; switch (k) { case 0: v = {c}; break; case 1: m.cell_get_nodes(c, &v); break; case 2: m.cell_get_faces(c, &v); break; case 3: m.cell_get_edges(c, &v); break;
    case 4: m.cell_get_sides(c, &v); break; case 5: m.cell_get_wedges(c, &v); break; default: m.cell_get_corners(c, &v); } return v; }
inline int master(Jali::Mesh const& m, int e, int k) {
  switch (k) { case 0: return m.master_tile_ID_of_cell(e); case 1: return m.master_tile_ID_of_node(e); case 2: return m.master_tile_ID_of_face(e); case 3: return m.master_tile_ID_of_edge(e);
    case 4: return m.master_tile_ID_of_side(e); case 5: return m.master_tile_ID_of_wedge(e); default: return m.master_tile_ID_of_corner(e); } }
// cells reached in at most `layers` node-sharing steps, without the start
inline std::set<int> halo(Jali::Mesh const& m, VI const& own, int layers) {
  std::vector<std::set<int>> n2c(m.num_nodes<Entity_type::ALL>()); std::vector<VI> cn;
  int nc = m.num_cells<Entity_type::ALL>(); for (int c = 0; c < nc; c++) { VI v; m.cell_get_nodes(c, &v); cn.push_back(v); for (int n : v) n2c[n].insert(c); }
  std::set<int> in(own.begin(), own.end()), front = in, out;
  for (int l = 0; l < layers; l++) { std::set<int> nx; for (int c : front) for (int n : cn[c]) for (int d : n2c[n]) if (!in.count(d)) { in.insert(d); nx.insert(d); out.insert(d); } front = nx; }
  return out;
}
inline std::string rq(Req const& q) { return std::string(q.f ? "f" : "") + (q.e ? "e" : "") + (q.s ? "s" : "") + (q.w ? "w" : "") + (q.c ? "c" : ""); }
// meshes the tile checks run on: made by the library (simple) or reference
struct TM { std::string name; int ncell; std::function<std::shared_ptr<Jali::Mesh>(Req)> make; bool edges; int md; };
inline std::shared_ptr<Jali::Mesh> simple3(int a, int b, int c, Req q) { return std::make_shared<Jali::Mesh_simple>(0., 0., 0., a, b, c, a, b, c, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 0, false, q.part); }
inline std::shared_ptr<Jali::Mesh> simple1(int n, Req q) { std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(i + 0.1 * i * i); return std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 0, false, q.part); }
inline TM tmr(Ref const& r) { TM t; t.name = r.name; t.ncell = r.nreal(); t.edges = true; t.md = r.md; t.make = [r](Req q) { return std::static_pointer_cast<Jali::Mesh>(make(r, q)); }; return t; }
inline TM tm3(int a, int b, int c) { TM t; t.name = "simple" + std::to_string(a) + "x" + std::to_string(b) + "x" + std::to_string(c); t.ncell = a * b * c; t.edges = false; t.md = 3; t.make = [=](Req q) { return simple3(a, b, c, q); }; return t; }
inline TM tm1(int n) { TM t; t.name = "simple" + std::to_string(n); t.ncell = n; t.edges = false; t.md = 1; t.make = [=](Req q) { return simple1(n, q); }; return t; }
// tiles to make of many cells: all, consecutive chunks, every k-th, single ones
inline std::vector<VI> bigsubsets(VI const& ow) {
  std::vector<VI> v; int n = ow.size(); v.push_back(ow);
  for (int a : {0, n / 3, n / 2}) for (int l : {1, 2, n / 4, n / 2}) { VI g; for (int i = a; i < a + l && i < n; i++) g.push_back(ow[i]); if (g.size()) v.push_back(g); }
  for (int mo : {2, 3, 7}) for (int r = 0; r < mo; r += mo - 1) { VI g; for (int i = r; i < n; i += mo) g.push_back(ow[i]); if (g.size()) v.push_back(g); }
  return v; }
inline std::vector<TM> bigtilemeshes() { std::vector<TM> v = {tm1(70), tm3(5, 4, 3)}; for (auto& d : allbig()) for (auto& o : labellings(d.cells.size(), false, true)) { if (o.bghost && !vk::thorough) continue; if (!o.shared_owned && !vk::thorough) continue; v.push_back(tmr(elaborate(d, o))); } return v; }
// hundreds of cells, for hundreds of tiles
inline std::vector<TM> hugetilemeshes() { std::vector<TM> v = {tm1(700), tm3(7, 7, 6)}; Opt o; v.push_back(tmr(elaborate(quads(18, 16), o))); o.shared_owned = true; for (int i = 0; i < 300; i++) o.ghost.push_back(i % 11 == 4); v.push_back(tmr(elaborate(quads(20, 15), o))); if (vk::thorough) { Opt p; v.push_back(tmr(elaborate(hexes(7, 6, 7), p))); v.push_back(tm3(11, 10, 10)); } return v; }
// tens of thousands of cells: identifiers past 16 bits
inline std::vector<TM> gianttilemeshes() { std::vector<TM> v = {tm1(70000), tm3(33, 32, 34)}; for (auto& g : giants()) v.push_back(tmr(elaborate(g.d, g.o))); return v; }
inline std::vector<VI> giantgroups(VI const& ow) { std::vector<VI> v(3); int n = ow.size(); for (int i = 0; i < n; i++) { int g = i >= n - 100 ? 0 : i < n / 4 ? 1 : i % 3 ? -1 : 2; if (g >= 0) v[g].push_back(ow[i]); } return v; }
inline std::vector<TM> tilemeshes(int maxc, bool big) {
  std::vector<TM> v; v.push_back(tm1(3)); v.push_back(tm3(2, 1, 2)); if (maxc >= 6) { v.push_back(tm1(5)); v.push_back(tm3(3, 2, 1)); }
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end());
  ds.push_back(quads(3, 1)); ds.push_back(quads(5, 1)); ds.push_back(chain({0, 1, 2, 4}));
  for (auto& d : ds) if ((int)d.cells.size() <= maxc && d.cells.size() > 1) { auto L = labellings(d.cells.size(), false, true); for (size_t i = 0; i < L.size(); i++) { if (!big && (i % 3 == 1)) continue; if (d.md == 1 && (L[i].bghost)) continue; v.push_back(tmr(elaborate(d, L[i]))); } }
  return v;
}
}
#endif
