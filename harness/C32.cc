// C32: an operation on one mesh, set, state or factory leaves all others as
// they were.  Every part of a world of two meshes, two states and two
// factories is compared, after every history, with the same part of a fresh
// world in which only the operations that concern this part were performed.
#include "tiles.hh"
#include "JaliState.h"
#include "MeshFactory.hh"
using namespace ref;
using namespace JaliGeometry;
typedef std::shared_ptr<Jali::State> StP;
typedef std::shared_ptr<Jali::MeshSet> SetP;
static Entity_type const OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST, AL = Entity_type::ALL;
static Entity_type const TY[3] = {OW, GH, AL};
struct Dig { std::vector<double> v; std::vector<std::tuple<size_t, char const*, int>> mk; std::vector<std::string> s;
  void at(char const* w, int i = -1) { mk.emplace_back(v.size(), w, i); }
  Dig& operator<<(double d) { v.push_back(d); return *this; }
  Dig& operator<<(Point const& p) { v.push_back(p.dim()); for (int i = 0; i < p.dim() && i < 3; i++) v.push_back(p[i]); return *this; }
  Dig& operator<<(std::string const& t) { s.push_back(t); v.push_back(-1000 - (double)t.size()); return *this; }
  template <class T> Dig& operator<<(std::vector<T> const& a) { v.push_back(a.size()); for (auto& x : a) *this << x; return *this; }
  template <class T, size_t N> Dig& operator<<(std::array<T, N> const& a) { for (auto& x : a) v.push_back(x); return *this; }
};
static bool same(Dig const& a, Dig const& b, std::string& where) {
  size_t n = std::min(a.v.size(), b.v.size()), i = 0; auto eq = [](double x, double y) { return x == y || (x != x && y != y); }; while (i < n && eq(a.v[i], b.v[i])) i++;
  if (i == n && a.v.size() == b.v.size() && a.s == b.s) return true;
  auto lab = [&](Dig const& d) { std::string r = "?"; for (auto& m : d.mk) if (std::get<0>(m) <= i) r = std::string(std::get<1>(m)) + " " + std::to_string(std::get<2>(m)); return r; };
  where = "at " + lab(b) + " (item " + std::to_string(i) + " is " + (i < a.v.size() ? vk::str(a.v[i]) : std::string("missing")) + " but would be " + (i < b.v.size() ? vk::str(b.v[i]) : std::string("missing")) + ")"; return false; }
// ---- parts of a mesh
static void topology(Jali::Mesh const& m, Req const& q, Dig& d, bool back = false) {
  bool E = q.e, S = q.s, W = q.w, K = q.c; int md = m.manifold_dimension(); d << m.space_dimension() << md << (double)(int)m.geom_type();
  for (int k = 0; k < 7; k++) { d.at("list of entities", k); for (auto t : TY) d << list(m, k, t) << numt(m, k, t) << m.num_entities(KINDS[k], t); if (asked(q, k)) for (int e : list(m, k, AL)) d << (int)m.entity_get_type(KINDS[k], e); }
  auto each = [&](char const* w, int n, std::function<void(int)> f) { for (int i = 0; i < n; i++) { int j = back ? n - 1 - i : i; d.at(w, j); f(j); } };
  VI a; std::vector<dir_t> r;
  each("cell", m.num_cells<AL>(), [&](int c) { m.cell_get_nodes(c, &a); d << a; m.cell_get_node_adj_cells(c, AL, &a); d << a; if (q.f) { m.cell_get_faces_and_dirs(c, &a, &r); d << a << as(r) << m.cell_get_num_faces(c); m.cell_get_faces(c, &a); d << a; m.cell_get_face_adj_cells(c, OW, &a); d << a; } if (E) { m.cell_get_edges(c, &a); d << a; if (md == 2) { m.cell_2D_get_edges_and_dirs(c, &a, &r); d << a << as(r); } }
    if (S) { m.cell_get_sides(c, &a); d << a; } if (W) { m.cell_get_wedges(c, &a); d << a; } if (K) { m.cell_get_corners(c, &a); d << a; } });
  if (q.f) each("face", m.num_faces<AL>(), [&](int f) { m.face_get_nodes(f, &a); d << a; for (auto t : TY) { m.face_get_cells(f, t, &a); d << a; } if (E) { m.face_get_edges_and_dirs(f, &a, &r); d << a << as(r); } });
  if (E) each("edge", m.num_edges<AL>(), [&](int e) { int x, y; m.edge_get_nodes(e, &x, &y); d << x << y; });
  each("node", m.num_nodes<AL>(), [&](int n) { for (auto t : TY) { m.node_get_cells(n, t, &a); d << a; if (q.f) { m.node_get_faces(n, t, &a); d << a; } if (K) { m.node_get_corners(n, t, &a); d << a; m.node_get_wedges(n, t, &a); d << a; } } });
  if (S) each("side", m.num_sides<AL>(), [&](int s) { d << m.side_get_cell(s) << m.side_get_face(s) << m.side_get_edge(s) << m.side_get_node(s, 0) << m.side_get_node(s, 1) << m.side_get_edge_use(s) << m.side_get_opposite_side(s); if (W) d << m.side_get_wedge(s, 0) << m.side_get_wedge(s, 1); });
  if (W) each("wedge", m.num_wedges<AL>(), [&](int w) { d << m.wedge_get_side(w) << m.wedge_get_node(w) << m.wedge_get_opposite_wedge(w) << m.wedge_get_adjacent_wedge(w) << m.wedge_get_cell(w); if (K) d << m.wedge_get_corner(w); });
  if (K) each("corner", m.num_corners<AL>(), [&](int k) { d << m.corner_get_cell(k) << m.corner_get_node(k); m.corner_get_wedges(k, &a); d << a; });
}
static void geometry(Jali::Mesh const& m, Req const& q, Dig& d, bool back = false) {
  auto each = [&](char const* w, int n, std::function<void(int)> f) { for (int i = 0; i < n; i++) { int j = back ? n - 1 - i : i; d.at(w, j); f(j); } };
  std::vector<Point> p; int nc = m.num_cells<OW>() + m.num_cells<GH>(); VI a;
  each("position of node", m.num_nodes<AL>(), [&](int n) { Point x; m.node_get_coordinates(n, &x); d << x; });
  each("geometry of cell", nc, [&](int c) { for (int rc = 0; rc < 2; rc++) d << (rc ? m.cell_volume(c, true) : m.cell_volume(c)) << (rc ? m.cell_centroid(c, true) : m.cell_centroid(c)); m.cell_get_coordinates(c, &p); d << p; });
  if (q.f) each("geometry of face", m.num_faces<AL>(), [&](int f) { for (int rc = 0; rc < 2; rc++) { d << (rc ? m.face_area(f, true) : m.face_area(f)) << (rc ? m.face_centroid(f, true) : m.face_centroid(f)) << (rc ? m.face_normal(f, true) : m.face_normal(f)); m.face_get_cells(f, AL, &a); for (int c : a) { int o; d << m.face_normal(f, rc, c, &o) << o; } } m.face_get_coordinates(f, &p); d << p; });
  if (q.e && m.manifold_dimension() > 1) each("geometry of edge", m.num_edges<AL>(), [&](int e) { for (int rc = 0; rc < 2; rc++) d << (rc ? m.edge_length(e, true) : m.edge_length(e)) << (rc ? m.edge_vector(e, true) : m.edge_vector(e)); });
  if (q.s) each("geometry of side", m.num_sides<AL>(), [&](int s) { if (m.side_get_cell(s) >= nc) return; for (int rc = 0; rc < 2; rc++) d << (rc ? m.side_volume(s, true) : m.side_volume(s)) << (rc ? m.side_facet_normal(s, true) : m.side_facet_normal(s)); m.side_get_coordinates(s, &p); d << p; });
  if (q.w) each("geometry of wedge", m.num_wedges<AL>(), [&](int w) { if (m.wedge_get_cell(w) >= nc) return; for (int rc = 0; rc < 2; rc++) d << (rc ? m.wedge_volume(w, true) : m.wedge_volume(w)) << (rc ? m.wedge_facet_normal(w, 0, true) : m.wedge_facet_normal(w, 0)) << (rc ? m.wedge_facet_normal(w, 1, true) : m.wedge_facet_normal(w, 1)); m.wedge_get_coordinates(w, &p); d << p; });
  if (q.c) each("geometry of corner", m.num_corners<AL>(), [&](int k) { if (m.corner_get_cell(k) >= nc) return; for (int rc = 0; rc < 2; rc++) d << (rc ? m.corner_volume(k, true) : m.corner_volume(k)); m.corner_get_coordinates(k, &p); d << p; });
}
static void tilesof(Jali::Mesh const& m, Req const& q, Dig& d, bool back = false) {
  auto& T = const_cast<Jali::Mesh&>(m).tiles(); d.at("number of tiles"); d << m.num_tiles() << T.size();
  for (size_t i = 0; i < T.size(); i++) { auto& t = *T[back ? T.size() - 1 - i : i]; d.at("tile", t.ID()); d << t.ID() << (&t.mesh() == &m); for (int k = 0; k < 7; k++) for (auto ty : TY) { d << list(t, k, ty) << numt(t, k, ty) << t.num_entities(KINDS[k], ty); } }
  for (int k = 0; k < 7; k++) if (asked(q, k)) { d.at("master tiles", k); for (int e : list(m, k, AL)) d << master(m, e, k); }
}
static void setsof(Jali::Mesh const& m, Req const&, Dig& d, bool back = false) {
  auto const& L = m.sets(); d.at("number of sets"); d << m.num_sets() << L.size(); for (int k = 0; k < 7; k++) d << m.num_sets(KINDS[k]);
  auto& T = const_cast<Jali::Mesh&>(m).tiles();
  for (size_t j = 0; j < L.size(); j++) { size_t i = back ? L.size() - 1 - j : j; auto& s = *L[i]; d.at("set", i); d << s.name() << (double)(int)s.kind() << (&s.mesh() == &m) << s.entities<OW>() << s.entities<GH>() << s.entities<AL>(); for (int e : s.entities<AL>()) d << s.index_in_set(e); for (auto t : TY) { VI a = junk(); m.get_set_entities(s.name(), s.kind(), t, &a); d << a << m.get_set_size(s.name(), s.kind(), t); } d << (m.find_meshset(s.name(), s.kind()) != nullptr);
    for (auto& t : T) { d.at("set on a tile", i); for (auto ty : TY) { VI a = junk(); t->get_set_entities(s.name(), s.kind(), ty, &a); d << vk::sorted(a); } } }
}
// ---- the world
enum { TILE, SET, EDIT, ALGEBRA, REGIONS, MOVE, QUERY, MAT, MATCELLS, VEC, WRITE, OPTION, CREATE, NOWN };
static char const* const ON[NOWN] = {"make a tile", "make a set", "edit the last set", "combine sets", "sets from regions", "move a node", "ask everything", "add a material", "add a cell to a material", "add a vector", "write a vector", "set an option of the factory", "make a mesh by the factory"};
enum { TEMPMESH, TEMPSTATE0, TEMPSTATE1, ERROR_, TEMPFACTORY, NGLOB };
static char const* const GN[NGLOB] = {"use another mesh for a while", "use another state of mesh 0 for a while", "use another state of mesh 1 for a while", "raise errors", "use another factory for a while"};
static int const NOPS = 2 * NOWN + NGLOB;
enum { TOPO, GEO, TILES, SETS, STATE, FACTORY, NPART };
static char const* const PN[NPART] = {"topology", "geometry", "tiles", "sets", "state", "factory and its meshes"};
static bool concerns(int part, int op) {
  switch (part) { case TOPO: return false; case GEO: return op == MOVE; case TILES: return op == TILE;
    case SETS: return op == TILE || op == SET || op == EDIT || op == ALGEBRA || op == REGIONS || op == MOVE || op == MAT || op == MATCELLS;
    case STATE: return op == MAT || op == MATCELLS || op == VEC || op == WRITE || op == TILE; default: return op == OPTION || op == CREATE; } }
struct Half { Req q; std::shared_ptr<Jali::Mesh> m; std::shared_ptr<GeometricModel> gm; std::vector<std::shared_ptr<Region>> regions; StP s; std::unique_ptr<Jali::MeshFactory> f; std::vector<std::shared_ptr<Jali::Mesh>> made; int nset, nmat, nvec, nmove, nopt, nalg; double val; SetP last; std::vector<std::function<bool(int, double)>> writers; };
typedef std::array<Half, 2> World;
struct Config { std::string name; std::function<std::shared_ptr<Jali::Mesh>(GeometricModelPtr)> make[2]; Req q[2]; int sd[2]; bool share; };
static std::shared_ptr<GeometricModel> model(int sd, int which, std::vector<std::shared_ptr<Region>>& own) {
  if (sd == 1) return nullptr; auto gm = std::make_shared<GeometricModel>(sd); auto add = [&](Region* r) { own.emplace_back(r); gm->Add_Region(r); };
  V3 lo = P(-.25, -.25, -.25), hi = P(1.1 + which, 1.2, 1.3); add(new BoxRegion("low", 1, pt(lo, sd), pt(hi, sd))); V3 l2 = P(0.6, -.5, -.5), h2 = P(9, 9, 9); add(new BoxRegion("high", 2, pt(l2, sd), pt(h2, sd)));
  if (sd > 1) add(new PlaneRegion("plane", 3, pt(P(which, 0, 0), sd), pt(P(1, 0, 0), sd))); return gm; }
static void start(World& w, Config const& c) { for (int i = 0; i < 2; i++) { Half& h = w[i]; h = Half(); h.q = c.q[i]; if (i && c.share) h.gm = w[0].gm; else h.gm = model(c.sd[i], i, h.regions); h.m = c.make[i](h.gm.get()); h.s = Jali::State::create(h.m); h.f.reset(new Jali::MeshFactory(MPI_COMM_WORLD)); h.f->framework(Jali::Simple); h.nset = h.nmat = h.nvec = h.nmove = h.nopt = h.nalg = 0; h.val = 10; } }
static Entity_kind const SK[3] = {Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE};
template <class T, class D> void addv(Half& h, std::string const& n, std::shared_ptr<D> dom, Entity_kind k, Entity_type t) {
  auto* v = &h.s->template add<T, D, Jali::UniStateVector>(n, dom, k, t, T(h.val)); h.writers.push_back([v](int i, double x) { if (!v->size()) return false; (*v)[i % v->size()] = T(x); return true; }); }
static void own(Half& h, int op) {
  Jali::Mesh& m = *h.m; Req const& q = h.q; VI cells = m.cells<OW>();
  switch (op) {
    case TILE: { VI g; for (int c : cells) if (m.master_tile_ID_of_cell(c) < 0 && (int)g.size() < 1 + m.num_tiles() % 2) g.push_back(c); if (g.size()) Jali::make_meshtile(m, g, (m.num_tiles() + 1) % 3, q.f, q.e, q.s, q.w, q.c); break; }
    case SET: { Entity_kind k = SK[h.nset % (q.f ? 3 : 2)]; VI o, g; int n = 0; for (int e = 0; e < (int)m.num_entities(k, AL); e++) { if ((n++ + h.nset) % 3 == 2) continue; auto t = m.entity_get_type(k, e); if (t == OW) o.push_back(e); if (t == GH) g.push_back(e); } h.last = Jali::make_meshset("set" + std::to_string(h.nset), m, k, o, g, h.nset % 2 == 0); h.nset++; break; }
    case EDIT: { if (!h.last) break; int e = 0; auto& L = h.last->entities<AL>(); if (std::find(L.begin(), L.end(), e) == L.end()) h.last->add_entities({e}); else h.last->rem_entities({e}); break; }
    case ALGEBRA: { std::vector<SetP> same; if (h.last) for (auto& s : m.sets()) if (s->kind() == h.last->kind()) same.push_back(s); if (same.size() < 2) break; auto a = same[0], b = same.back(); int k = h.nalg++ % 3; SetP r = k == 0 ? Jali::merge({a, b}) : k == 1 ? Jali::subtract(a, {b}) : Jali::intersect({a, b}); if (!r) vk::fail("no set from set algebra"); break; }
    case REGIONS: m.init_sets_from_geometric_model(); break;
    case MOVE: { int n = (h.nmove * 2) % m.num_nodes<AL>(); Point p; m.node_get_coordinates(n, &p); for (int d = 0; d < p.dim(); d++) p[d] += (h.nmove % 2 ? -1 : 1) * (0.0625 + 0.03125 * d); m.node_set_coordinates(n, p); m.update_geometric_quantities(); h.nmove++; break; }
    case QUERY: { Dig d; setsof(m, q, d, true); tilesof(m, q, d, true); geometry(m, q, d, true); topology(m, q, d, true); break; }
    case MAT: { int n = cells.size(), i = h.nmat++; VI v = {cells[i % n]}; if (n > 1) v.push_back(cells[(i + 1) % n]); h.s->add_material("mat" + std::to_string(i), v); break; }
    case MATCELLS: { if (!h.s->num_materials()) break; int k = h.s->num_materials() - 1; auto const& mc = h.s->material_cells(k); for (int c : cells) if (std::find(mc.begin(), mc.end(), c) == mc.end()) { h.s->add_cells_to_material(k, VI{c}); break; } break; }
    case VEC: { std::string n = "v" + std::to_string(h.nvec); int k = h.nvec++ % 4; h.val += 1; if (k == 1 && m.num_tiles()) addv<double, Jali::MeshTile>(h, n, m.tiles().back(), Entity_kind::NODE, AL); else if (k == 2) addv<int, Jali::Mesh>(h, n, h.m, Entity_kind::NODE, OW);
      else if (k == 0 && h.s->num_materials()) { auto* v = &h.s->add<double, Jali::Mesh, Jali::MultiStateVector>(n, h.m, Entity_kind::CELL, AL, h.val); Jali::State* s = h.s.get(); h.writers.push_back([v, s](int i, double x) { int mm = i % s->num_materials(); auto const& c = s->material_cells(mm); if (c.empty()) return false; (*v)(mm, c[i % c.size()]) = x; return true; }); }
      else addv<double, Jali::Mesh>(h, n, h.m, Entity_kind::CELL, AL); break; }
    case WRITE: { for (size_t i = 0; i < h.writers.size(); i++) { h.val += 1; h.writers[i](i + (int)h.val, h.val); } break; }
    case OPTION: { int k = h.nopt++; switch (k % 6) { case 0: h.f->num_tiles(2); break; case 1: h.f->included_entities(Entity_kind::WEDGE); break; case 2: h.f->mesh_geometry(Geom_type::SPHERICAL); break; case 3: h.f->num_ghost_layers_tile(1); break; case 4: h.f->included_entities(Entity_kind::CORNER); break; default: h.f->reset_options(); h.f->framework(Jali::Simple); } break; }
    case CREATE: { double b = 1 + h.made.size(); h.made.push_back((*h.f)(std::vector<double>{b, b + 1, b + 1.5, b + 3})); break; }
  }
}
static void global(World& w, int op) {
  switch (op) {
    case TEMPMESH: { Opt o; o.ghost = {0, 0, 1}; Req q = Req::all(); q.tiles = 2; q.tghost = 1; std::vector<std::shared_ptr<Region>> own; auto gm = model(2, 0, own); auto m = make(elaborate(quads(3, 1), o), q, gm.get()); m->init_sets_from_geometric_model(); auto s = Jali::State::create(m); s->add_material("mat0", VI{1}); s->add<double, Jali::Mesh, Jali::UniStateVector>("v0", m, Entity_kind::CELL, AL, 77.0);
      Jali::make_meshset("set0", *m, Entity_kind::CELL, VI{0}, VI{}); Point p(2); m->node_set_coordinates(0, Point(-0.25, -0.5)); m->update_geometric_quantities(); Dig d; topology(*m, q, d); geometry(*m, q, d); tilesof(*m, q, d); setsof(*m, q, d); break; }
    case TEMPSTATE0: case TEMPSTATE1: { Half& h = w[op - TEMPSTATE0]; auto s = Jali::State::create(h.m); s->add<double, Jali::Mesh, Jali::UniStateVector>("v0", h.m, Entity_kind::CELL, AL, 55.0); s->add<int, Jali::Mesh, Jali::UniStateVector>("v1", h.m, Entity_kind::NODE, OW, 5); Jali::UniStateVector<double> x; s->get("v0", &x); for (auto& e : x) e = 3; break; }
    case ERROR_: { int got = 0; for (int i = 0; i < 2; i++) if (w[i].gm) try { w[i].m->build_set_from_region("no such region", Entity_kind::CELL); } catch (Errors::Message const&) { got++; } try { (*w[0].f)(std::vector<double>{3, 2, 1}); } catch (Errors::Message const&) { got++; } catch (...) { got++; } vk::ok(got >= (w[0].gm != nullptr) + (w[1].gm != nullptr), "errors expected"); break; }
    case TEMPFACTORY: { Jali::MeshFactory f(MPI_COMM_WORLD); f.framework(Jali::Simple); f.num_tiles(3); f.included_entities(Entity_kind::CORNER); f.mesh_geometry(Geom_type::CARTESIAN); f.num_ghost_layers_tile(2); f.boundary_ghosts_requested(true); auto m = f(std::vector<double>{0, 1, 2, 3, 4}); Req q = Req::all(); Dig d; topology(*m, q, d); geometry(*m, q, d); tilesof(*m, q, d); f.reset_options(); break; }
  }
}
template <class T, class D> bool dumpu(Jali::StateVectorBase* b, Dig& d) { auto* v = dynamic_cast<Jali::UniStateVector<T, D>*>(b); if (!v) return false; d << v->size(); for (auto& x : *v) d << x; return true; }
static Dig part(Half& h, int p) {
  Dig d; switch (p) { case TOPO: topology(*h.m, h.q, d); break; case GEO: geometry(*h.m, h.q, d); break; case TILES: tilesof(*h.m, h.q, d); break; case SETS: setsof(*h.m, h.q, d); break;
    case STATE: { auto& s = *h.s; d.at("number of vectors and materials"); d << s.size() << s.num_materials() << (s.mesh() == h.m); for (int k = 0; k < s.num_materials(); k++) { d.at("material", k); d << s.material_name(k) << s.material_cells(k) << s.num_material_cells(k) << s.material_index_by_name(s.material_name(k)); for (int c : s.material_cells(k)) d << s.cell_index_in_material(c, k) << s.cell_materials(c) << s.num_cell_materials(c); }
      int i = 0; for (auto& b : s) { d.at("vector", i++); d << b->name() << (double)(int)b->entity_kind() << (double)(int)b->entity_type(); bool mine = dumpu<double, Jali::Mesh>(b.get(), d) || dumpu<int, Jali::Mesh>(b.get(), d) || dumpu<double, Jali::MeshTile>(b.get(), d); if (!mine) { auto* v = dynamic_cast<Jali::MultiStateVector<double, Jali::Mesh>*>(b.get()); if (v) { d << v->size(); for (int k = 0; k < (int)v->size(); k++) d << v->get_matdata(k); } } }
      for (auto n = s.names_begin(); n != s.names_end(); ++n) d << *n; for (int k = 0; k < 7; k++) d << (double)(s.entity_end(KINDS[k]) - s.entity_begin(KINDS[k])); break; }
    case FACTORY: { auto& f = *h.f; d.at("options"); d << (double)f.framework() << (double)(int)f.partitioner() << (double)(int)f.mesh_geometry() << f.num_tiles() << f.num_ghost_layers_tile() << f.num_ghost_layers_distmesh() << f.boundary_ghosts_requested() << (f.geometric_model() != nullptr); for (auto k : f.included_entities()) d << (double)(int)k; for (auto& m : h.made) { Req q; q.f = true; q.e = m->num_edges<AL>(); q.s = m->num_sides<AL>(); q.w = m->num_wedges<AL>(); q.c = m->num_corners<AL>(); topology(*m, q, d); geometry(*m, q, d); tilesof(*m, q, d); } break; } }
  return d; }
static std::string show(int op) { return op >= 2 * NOWN ? std::string(GN[op - 2 * NOWN]) : std::string(ON[op / 2]) + " (" + std::to_string(op % 2) + ")"; }
static void perform(World& w, int op) { if (op >= 2 * NOWN) global(w, op - 2 * NOWN); else own(w[op % 2], op / 2); }
struct Explore { Config c; std::map<std::pair<int, VI>, Dig> memo; std::set<VI> seen; int shard;
  Dig const& alone(int i, int p, VI const& h) { VI pr; for (int op : h) if (op < 2 * NOWN && op % 2 == i && concerns(p, op / 2)) pr.push_back(op); auto k = std::make_pair(i * NPART + p, pr); auto it = memo.find(k); if (it != memo.end()) return it->second; World w; start(w, c); for (int op : pr) perform(w, op); vk::states(); return memo[k] = part(w[i], p); }
  void examine(VI const& h) { std::string cx; for (int op : h) cx += show(op) + "; "; vk::set_current(cx); vk::traces(); vk::transitions(h.size()); World w; start(w, c); for (int op : h) perform(w, op); int first = h.size() % 2;
    for (int j = 0; j < 2; j++) for (int p = 0; p < NPART; p++) { int i = (j + first) % 2; Dig d = part(w[i], p); vk::cmp(d.v.size()); std::string where; if (!same(d, alone(i, p, h), where)) { vk::fail(std::string(PN[p]) + " changed by an operation that does not concern it", cx + " mesh " + std::to_string(i) + " " + where); return; } } }
  void dfs(VI& h, int depth, std::vector<int> const& ops) { examine(h); if (vk::failed() || !depth) return; for (int op : ops) { h.push_back(op); dfs(h, depth - 1, ops); h.pop_back(); if (vk::failed()) return; if (h.size() < 2) vk::beat(); } }
};
VK_CHECK("C32", "model_checking", "every history up to depth 3 (thorough 4, or 5 for pairs that share a geometric model, over a reduced alphabet besides) over 31 operations on a world of two meshes, two states and two factories alive at once (make a tile, make or edit or combine sets, sets from regions, move a node and update, ask everything backwards, add or extend a material, add or write state vectors, set a factory option, make a mesh by the factory - each on either half; use and drop a third mesh, another state of either mesh, another factory; raise and catch errors) for several pairs of meshes, also identical ones and ones that share a geometric model; after each history topology, geometry, tiles, sets (also restricted to tiles), state and factory of both halves are compared item by item with a fresh world in which only the operations that concern this part were performed; one case is a pair of meshes and a first operation") {
  Exceptions::set_exception_behavior_raise();
  std::vector<Config> cs; auto refm = [](Config& c, int i, Desc d, Opt o, Req q) { Ref r = elaborate(d, o); c.make[i] = [=](GeometricModelPtr g) { return std::static_pointer_cast<Jali::Mesh>(make(r, q, g)); }; c.q[i] = q; c.sd[i] = d.sd; };
  auto s1 = [](Config& c, int i, std::vector<double> x) { c.q[i] = Req::all(); c.sd[i] = 1; c.make[i] = [=](GeometricModelPtr g) { return std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, g, true, true, true, true, true); }; };
  auto s3 = [](Config& c, int i, int a, int b, int k) { c.q[i] = Req(); c.sd[i] = 3; c.make[i] = [=](GeometricModelPtr g) { return std::make_shared<Jali::Mesh_simple>(0., 0., 0., 1. * a, 1. * b, 1. * k, a, b, k, MPI_COMM_WORLD, g, true, false, false, false, false); }; };
  Opt no, gh; gh.ghost = {0, 0, 0, 1}; gh.flip = 3; Opt g2; g2.ghost = {0, 1, 0}; g2.flip = 2;
  { Config c; c.name = "quads with a ghost, segments"; c.share = false; refm(c, 0, quads(2, 2), gh, Req::all()); s1(c, 1, {0, 1, 1.5, 2.5}); cs.push_back(c); }
  { Config c; c.name = "identical quads"; c.share = true; refm(c, 0, quads(2, 1), no, Req::all()); refm(c, 1, quads(2, 1), no, Req::all()); cs.push_back(c); }
  { Config c; c.name = "two generated boxes"; c.share = true; s3(c, 0, 2, 1, 1); s3(c, 1, 1, 1, 2); cs.push_back(c); }
  { Config c; c.name = "hexahedra, row of quads"; c.share = false; refm(c, 0, hexes(2, 1, 1), no, Req::all()); refm(c, 1, quads(3, 1), g2, Req::all()); cs.push_back(c); }
  { Config c; c.name = "two lists of segments"; c.share = true; s1(c, 0, {0, 1, 2, 3}); s1(c, 1, {0, 0.5, 3}); cs.push_back(c); }
  VI all; for (int i = 0; i < NOPS; i++) all.push_back(i);
  for (auto& c : cs) for (int f = 0; f < NOPS; f++) vk::run(c.name + " / " + show(f), [&] { if (f >= 2 * NOWN && f != 2 * NOWN + TEMPMESH) vk::trivial(); Explore x; x.c = c; VI h = {f}; x.dfs(h, c.name[0] == 'h' && !vk::thorough ? 1 : 2, all); });
  // deeper: the operations of one half, then all that the other half and the outside can do
  if (vk::thorough) for (auto& c : cs) for (int f = 0; f < 2 * NOWN; f++) for (int g : {0, 1}) { vk::run(c.name + " deep / " + show(f) + " then of " + std::to_string(g), [&] { Explore x; x.c = c; VI ops; for (int o : {TILE, SET, EDIT, REGIONS, MOVE, MAT, VEC, WRITE}) ops.push_back(2 * o + (f + o + g) % 2); ops.push_back(2 * NOWN + TEMPMESH); VI h = {f}; x.dfs(h, c.share ? 4 : 3, ops); }); }
}
