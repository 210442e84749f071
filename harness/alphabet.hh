// The alphabet of questions to a mesh, its tiles, sets and geometric model,
// and the worlds they are put to (C30, C34).
#ifndef ALPHABET_HH
#define ALPHABET_HH
#include "tiles.hh"
#include <cstring>
using namespace ref;
typedef std::shared_ptr<Jali::Mesh> MeshP;
typedef std::vector<double> Ans;
typedef std::shared_ptr<JaliGeometry::Region> RegP;
struct W { JaliGeometry::GeometricModelPtr gm; std::vector<RegP> regs; MeshP m; std::vector<TileP> tiles; int sd, md; };
struct Q { std::string method, name; std::function<void(W&, int, Ans&)> f; };
// outputs as the caller may pass them: 0 empty, 1 a few old values, 2 many old values
static VI ol(int d) { return d == 0 ? VI() : d == 1 ? junk() : VI(300, -3); }
static std::vector<dir_t> od(int d) { return d == 0 ? std::vector<dir_t>() : d == 1 ? junkd() : std::vector<dir_t>(300, 9); }
static std::vector<Point> op(int d) { return d == 0 ? std::vector<Point>() : d == 1 ? junkp() : std::vector<Point>(40, Point(1., 2.)); }
static Point opt1(int d) { return d == 0 ? Point() : d == 1 ? Point(7., 8., 9.) : Point(5., 6.); }
static void put(Ans& a, VI const& v) { a.push_back(v.size()); a.insert(a.end(), v.begin(), v.end()); }
static void putd(Ans& a, std::vector<dir_t> const& v) { a.push_back(v.size()); a.insert(a.end(), v.begin(), v.end()); }
static void put(Ans& a, Point const& p) { a.push_back(p.dim()); for (int i = 0; i < p.dim() && i < 3; i++) a.push_back(p[i]); }
static void put(Ans& a, std::vector<Point> const& v) { a.push_back(v.size()); for (auto& p : v) put(a, p); }
static void put(Ans& a, std::string const& s) { a.push_back(s.size()); for (char c : s) a.push_back(c); }
static bool same(Ans const& a, Ans const& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static Entity_type const TY[4] = {Entity_type::PARALLEL_OWNED, Entity_type::PARALLEL_GHOST, Entity_type::ALL, Entity_type::BOUNDARY_GHOST};
struct World { std::string name; Req q; std::function<void(W&)> mk; int lim = -1; };
static int const NREG = 6;
static void regions(W& w) {
  int sd = w.sd; Point lo(sd), hi(sd), mid(sd), nrm(sd); for (int i = 0; i < sd; i++) { lo[i] = -0.5; hi[i] = i ? 50 : 1.5; mid[i] = 0; nrm[i] = i == 0 ? 1 : 0; }
  std::vector<std::string> cr = {"box"}; int id = 1;
  w.regs.push_back(std::make_shared<JaliGeometry::BoxRegion>("box", id++, lo, hi));
  w.regs.push_back(std::make_shared<JaliGeometry::PlaneRegion>("plane", id++, mid, nrm));
  w.regs.push_back(std::make_shared<JaliGeometry::PointRegion>("point", id++, mid));
  w.regs.push_back(std::make_shared<JaliGeometry::LabeledSetRegion>("lab", id++, "CELL", "file", "fmt", "L1"));
  w.regs.push_back(std::make_shared<JaliGeometry::LogicalRegion>("notbox", id++, JaliGeometry::Bool_type::COMPLEMENT, cr));
  if (sd == 3) w.regs.push_back(std::make_shared<JaliGeometry::PolygonRegion>("poly", id++, 4, std::vector<Point>{Point(0., 0., 0.), Point(2., 0., 0.), Point(2., 2., 0.), Point(0., 2., 0.)}));
  else if (sd == 2) w.regs.push_back(std::make_shared<JaliGeometry::PolygonRegion>("poly", id++, 2, std::vector<Point>{Point(0., 0.), Point(2., 0.)}));
  else w.regs.push_back(std::make_shared<JaliGeometry::BoxRegion>("poly", id++, lo, mid));
  w.gm = nullptr;
}
enum Late { NOTHING, LATE_TILE, LATE_SETS, LATE_REGION };
static Late late = NOTHING;    // what a new world is to lack at first
static void model(W& w) { regions(w); std::vector<JaliGeometry::RegionPtr> v; for (auto& r : w.regs) if (w.sd > 1 || r->type() == JaliGeometry::Region_type::BOX || r->type() == JaliGeometry::Region_type::LOGICAL) v.push_back(r.get()); if (late == LATE_REGION) v.pop_back(); w.gm = new JaliGeometry::GeometricModel(w.sd, v); }
struct GM { JaliGeometry::GeometricModelPtr p; ~GM() { delete p; } };
struct WH { W w; ~WH() { w.tiles.clear(); w.m.reset(); delete w.gm; } };
static void maketile(W& w, Req const& q, int only) { VI o = w.m->cells<Entity_type::PARALLEL_OWNED>(), g[2]; for (size_t i = 0; i < o.size(); i++) g[i < (o.size() + 1) / 2 ? 0 : 1].push_back(o[i]);
  for (int i = 0; i < 2; i++) if (g[i].size() && (only < 0 || i == only)) w.tiles.push_back(Jali::make_meshtile(*w.m, g[i], 1, q.f, q.e, q.s, q.w, q.c)); }
static void finish(W& w, Req const& q) { if (late != LATE_SETS) w.m->init_sets_from_geometric_model(); maketile(w, q, late == LATE_TILE ? 0 : -1); }
static World rw(Ref r, Req q, std::string nm) { World w; w.name = r.name + nm; w.q = q; w.mk = [r, q](W& x) { x.sd = r.sd; x.md = r.md; model(x); auto m = make(r, q, x.gm); VI a, b; for (int c = 0; c < r.nc(); c += 2) { if (r.ctype[c] == Entity_type::PARALLEL_OWNED) a.push_back(c); else if (r.ctype[c] == Entity_type::PARALLEL_GHOST) b.push_back(c); } m->labels[{"L1", (int)Entity_kind::CELL}] = {a, b}; x.m = m; finish(x, q); }; return w; }
static World sw(int dim, int a, int b, int c, Req q) { World w; w.name = "simple" + std::to_string(dim) + "d " + std::to_string(a) + std::to_string(b) + std::to_string(c) + " " + rq(q); w.q = q;
  w.mk = [=](W& x) { x.sd = x.md = dim; model(x);
    if (dim == 3) x.m = std::make_shared<Jali::Mesh_simple>(0., 0., 0., (double)a, (double)b, (double)c, a, b, c, MPI_COMM_WORLD, x.gm, q.f, q.e, q.s, q.w, q.c);
    else { std::vector<double> p; for (int i = 0; i <= a; i++) p.push_back(i + 0.125 * i * i); x.m = std::make_shared<Jali::Mesh_simple>(p, MPI_COMM_WORLD, x.gm, q.f, q.e, q.s, q.w, q.c, 0, 0, 0, false, Jali::Partitioner_type::INDEX, b ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN); }
    finish(x, q); }; return w; }

// the query alphabet; lim entities per kind (-1: all)
static std::vector<Q> alphabet(W& w0, Req const& q, int lim) {
  std::vector<Q> A; Jali::Mesh& m0 = *w0.m; int md = w0.md, sd = w0.sd;
  auto add = [&](std::string const& meth, std::string const& args, std::function<void(W&, int, Ans&)> f) { A.push_back(Q{meth, meth + "(" + args + ")", f}); };
  auto pick = [&](VI const& v) { if (lim < 0 || (int)v.size() <= lim) return v; VI o; for (int i = 0; i < lim; i++) o.push_back(v[i * (v.size() - 1) / std::max(1, lim - 1)]); return o; };
  auto s = [](int i) { return std::to_string(i); };
  bool rdf = md > 1;
  auto typed = [&](std::string const& meth, int id, std::function<void(Jali::Mesh&, int, Entity_type, VI*)> f, int nt = 3) { for (int t = 0; t < nt; t++) add(meth, s(id) + ",type " + s(t), [=](W& w, int d, Ans& a) { VI o = ol(d); f(*w.m, id, TY[t], &o); put(a, o); }); };
  auto list = [&](std::string const& meth, std::string const& args, std::function<void(Jali::Mesh&, VI*)> f) { add(meth, args, [=](W& w, int d, Ans& a) { VI o = ol(d); f(*w.m, &o); put(a, o); }); };
  auto num = [&](std::string const& meth, std::string const& args, std::function<double(Jali::Mesh&)> f) { add(meth, args, [=](W& w, int, Ans& a) { a.push_back(f(*w.m)); }); };
  auto pnt = [&](std::string const& meth, std::string const& args, std::function<Point(Jali::Mesh&)> f) { add(meth, args, [=](W& w, int, Ans& a) { put(a, f(*w.m)); }); };
  auto pts = [&](std::string const& meth, std::string const& args, std::function<void(Jali::Mesh&, std::vector<Point>*)> f) { add(meth, args, [=](W& w, int d, Ans& a) { auto o = op(d); f(*w.m, &o); put(a, o); }); };
  typedef Jali::Mesh M;
  for (int c : pick(m0.cells())) { bool bg = m0.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST;
    list("cell_get_nodes", s(c), [=](M& m, VI* o) { m.cell_get_nodes(c, o); });
    num("cell_get_type", s(c), [=](M& m) { return (int)m.cell_get_type(c); });
    pts("cell_get_coordinates", s(c), [=](M& m, std::vector<Point>* o) { m.cell_get_coordinates(c, o); });
    typed("cell_get_face_adj_cells", c, [](M& m, int i, Entity_type t, VI* o) { m.cell_get_face_adj_cells(i, t, o); });
    typed("cell_get_node_adj_cells", c, [](M& m, int i, Entity_type t, VI* o) { m.cell_get_node_adj_cells(i, t, o); });
    for (int rc = 0; rc < (bg ? 1 : 2); rc++) { num("cell_volume", s(c) + "," + s(rc), [=](M& m) { return (rc ? m.cell_volume(c, true) : m.cell_volume(c)); }); pnt("cell_centroid", s(c) + "," + s(rc), [=](M& m) { return (rc ? m.cell_centroid(c, true) : m.cell_centroid(c)); }); }
    num("master_tile_ID_of_cell", s(c), [=](M& m) { return m.master_tile_ID_of_cell(c); });
    if (q.f) { num("cell_get_num_faces", s(c), [=](M& m) { return m.cell_get_num_faces(c); });
      for (int ord = 0; ord < 2; ord++) { if (ord && bg) continue; list("cell_get_faces", s(c) + "," + s(ord), [=](M& m, VI* o) { m.cell_get_faces(c, o, ord); });
        add("cell_get_faces_and_dirs", s(c) + "," + s(ord), [=](W& w, int d, Ans& a) { VI f = ol(d); auto dd = od(d); w.m->cell_get_faces_and_dirs(c, &f, &dd, ord); put(a, f); putd(a, dd); }); } }
    if (q.e) { list("cell_get_edges", s(c), [=](M& m, VI* o) { m.cell_get_edges(c, o); });
      if (md == 2) add("cell_2D_get_edges_and_dirs", s(c), [=](W& w, int d, Ans& a) { VI f = ol(d); auto dd = od(d); w.m->cell_2D_get_edges_and_dirs(c, &f, &dd); put(a, f); putd(a, dd); }); }
    if (q.s) list("cell_get_sides", s(c), [=](M& m, VI* o) { m.cell_get_sides(c, o); });
    if (q.w) list("cell_get_wedges", s(c), [=](M& m, VI* o) { m.cell_get_wedges(c, o); });
    if (q.c) { list("cell_get_corners", s(c), [=](M& m, VI* o) { m.cell_get_corners(c, o); }); VI ns; m0.cell_get_nodes(c, &ns); if (!bg) for (int n : pick(ns)) num("cell_get_corner_at_node", s(c) + "," + s(n), [=](M& m) { return m.cell_get_corner_at_node(c, n); }); }
    if (!bg && (md < 3 || q.f)) for (int k = 0; k < 2; k++) { Point p = m0.cell_centroid(c); if (k) p[0] += 100; add("point_in_cell", s(c) + "," + s(k), [=](W& w, int, Ans& a) { a.push_back(w.m->point_in_cell(p, c)); }); } }
  for (int n : pick(m0.nodes())) {
    typed("node_get_cells", n, [](M& m, int i, Entity_type t, VI* o) { m.node_get_cells(i, t, o); });
    if (q.f) { typed("node_get_faces", n, [](M& m, int i, Entity_type t, VI* o) { m.node_get_faces(i, t, o); }); VI cs; m0.node_get_cells(n, Entity_type::ALL, &cs); for (int c : pick(cs)) typed("node_get_cell_faces", n, [c](M& m, int i, Entity_type t, VI* o) { m.node_get_cell_faces(i, c, t, o); }); }
    if (q.w) typed("node_get_wedges", n, [](M& m, int i, Entity_type t, VI* o) { m.node_get_wedges(i, t, o); });
    if (q.c) typed("node_get_corners", n, [](M& m, int i, Entity_type t, VI* o) { m.node_get_corners(i, t, o); });
    add("node_get_coordinates", s(n), [=](W& w, int d, Ans& a) { Point p = opt1(d); w.m->node_get_coordinates(n, &p); put(a, p); });
    if (sd == 1) num("node_get_coordinates", s(n) + ",double", [=](M& m) { double x; m.node_get_coordinates(n, &x); return x; });
    if (sd == 2) add("node_get_coordinates", s(n) + ",array", [=](W& w, int d, Ans& a) { std::array<double, 2> x{{(double)d, 5}}; w.m->node_get_coordinates(n, &x); a.push_back(x[0]); a.push_back(x[1]); });
    if (sd == 3) add("node_get_coordinates", s(n) + ",array", [=](W& w, int d, Ans& a) { std::array<double, 3> x{{(double)d, 5, 6}}; w.m->node_get_coordinates(n, &x); for (double y : x) a.push_back(y); });
    num("master_tile_ID_of_node", s(n), [=](M& m) { return m.master_tile_ID_of_node(n); }); }
  if (q.f) for (int f : pick(m0.faces())) { VI cs; m0.face_get_cells(f, Entity_type::ALL, &cs);
    list("face_get_nodes", s(f), [=](M& m, VI* o) { m.face_get_nodes(f, o); }); pts("face_get_coordinates", s(f), [=](M& m, std::vector<Point>* o) { m.face_get_coordinates(f, o); });
    typed("face_get_cells", f, [](M& m, int i, Entity_type t, VI* o) { m.face_get_cells(i, t, o); });
    for (int rc = 0; rc < 2; rc++) { num("face_area", s(f) + "," + s(rc), [=](M& m) { return (rc ? m.face_area(f, true) : m.face_area(f)); }); pnt("face_centroid", s(f) + "," + s(rc), [=](M& m) { return (rc ? m.face_centroid(f, true) : m.face_centroid(f)); }); pnt("face_normal", s(f) + "," + s(rc), [=](M& m) { return (rc ? m.face_normal(f, true) : m.face_normal(f)); });
      for (int c : cs) add("face_normal", s(f) + "," + s(rc) + "," + s(c), [=](W& w, int d, Ans& a) { int o = d * 17 - 5; put(a, w.m->face_normal(f, rc, c, &o)); a.push_back(o); }); }
    if (q.e) { add("face_get_edges_and_dirs", s(f), [=](W& w, int d, Ans& a) { VI e = ol(d); auto dd = od(d); w.m->face_get_edges_and_dirs(f, &e, &dd); put(a, e); putd(a, dd); });
      if (rdf) for (int c : cs) list("face_to_cell_edge_map", s(f) + "," + s(c), [=](M& m, VI* o) { m.face_to_cell_edge_map(f, c, o); }); }
    num("master_tile_ID_of_face", s(f), [=](M& m) { return m.master_tile_ID_of_face(f); }); }
  if (q.e) for (int e : pick(m0.edges())) {
    add("edge_get_nodes", s(e), [=](W& w, int d, Ans& a) { int x = d, y = -d; w.m->edge_get_nodes(e, &x, &y); a.push_back(x); a.push_back(y); });
    int n0, n1; m0.edge_get_nodes(e, &n0, &n1); pnt("edge_centroid", s(e), [=](M& m) { return m.edge_centroid(e); }); num("master_tile_ID_of_edge", s(e), [=](M& m) { return m.master_tile_ID_of_edge(e); });
    for (int rc = 0; rc < 2; rc++) { num("edge_length", s(e) + "," + s(rc), [=](M& m) { return (rc ? m.edge_length(e, true) : m.edge_length(e)); }); pnt("edge_vector", s(e) + "," + s(rc), [=](M& m) { return (rc ? m.edge_vector(e, true) : m.edge_vector(e)); });
      for (int k = 0; k < 2; k++) add("edge_vector", s(e) + "," + s(rc) + ",node " + s(k), [=](W& w, int d, Ans& a) { int o = d * 17 - 5; put(a, w.m->edge_vector(e, rc, k ? n1 : n0, &o)); a.push_back(o); }); } }
  auto bgh = [&](Entity_kind k, int i) { return m0.entity_get_type(k, i) == Entity_type::BOUNDARY_GHOST; };
  if (q.s) for (int x : pick(m0.sides())) { bool bg = bgh(Entity_kind::SIDE, x);
    num("side_get_cell", s(x), [=](M& m) { return m.side_get_cell(x); }); num("side_get_face", s(x), [=](M& m) { return m.side_get_face(x); }); num("side_get_edge", s(x), [=](M& m) { return m.side_get_edge(x); }); num("side_get_edge_use", s(x), [=](M& m) { return m.side_get_edge_use(x); });
    num("side_get_opposite_side", s(x), [=](M& m) { return m.side_get_opposite_side(x); }); num("master_tile_ID_of_side", s(x), [=](M& m) { return m.master_tile_ID_of_side(x); });
    for (int k = 0; k < 2; k++) { num("side_get_node", s(x) + "," + s(k), [=](M& m) { return m.side_get_node(x, k); }); if (q.w) num("side_get_wedge", s(x) + "," + s(k), [=](M& m) { return m.side_get_wedge(x, k); });
      if (bg) continue; pts("side_get_coordinates", s(x) + "," + s(k), [=](M& m, std::vector<Point>* o) { m.side_get_coordinates(x, o, k); }); num("side_volume", s(x) + "," + s(k), [=](M& m) { return (k ? m.side_volume(x, true) : m.side_volume(x)); }); pnt("side_facet_normal", s(x) + "," + s(k), [=](M& m) { return (k ? m.side_facet_normal(x, true) : m.side_facet_normal(x)); }); } }
  if (q.w) for (int x : pick(m0.wedges())) { bool bg = bgh(Entity_kind::WEDGE, x);
    num("wedge_get_cell", s(x), [=](M& m) { return m.wedge_get_cell(x); }); num("wedge_get_face", s(x), [=](M& m) { return m.wedge_get_face(x); }); num("wedge_get_edge", s(x), [=](M& m) { return m.wedge_get_edge(x); }); num("wedge_get_node", s(x), [=](M& m) { return m.wedge_get_node(x); }); num("wedge_get_side", s(x), [=](M& m) { return m.wedge_get_side(x); });
    if (q.c) num("wedge_get_corner", s(x), [=](M& m) { return m.wedge_get_corner(x); }); num("wedge_get_opposite_wedge", s(x), [=](M& m) { return m.wedge_get_opposite_wedge(x); }); num("wedge_get_adjacent_wedge", s(x), [=](M& m) { return m.wedge_get_adjacent_wedge(x); });
    num("master_tile_ID_of_wedge", s(x), [=](M& m) { return m.master_tile_ID_of_wedge(x); });
    if (!bg) for (int k = 0; k < 2; k++) { pts("wedge_get_coordinates", s(x) + "," + s(k), [=](M& m, std::vector<Point>* o) { m.wedge_get_coordinates(x, o, k); }); num("wedge_volume", s(x) + "," + s(k), [=](M& m) { return (k ? m.wedge_volume(x, true) : m.wedge_volume(x)); });
      for (int i = 0; i < 2; i++) pnt("wedge_facet_normal", s(x) + "," + s(i) + "," + s(k), [=](M& m) { return (k ? m.wedge_facet_normal(x, i, true) : m.wedge_facet_normal(x, i)); }); } }
  if (q.c) for (int x : pick(m0.corners())) { bool bg = bgh(Entity_kind::CORNER, x);
    num("corner_get_cell", s(x), [=](M& m) { return m.corner_get_cell(x); }); num("corner_get_node", s(x), [=](M& m) { return m.corner_get_node(x); }); list("corner_get_wedges", s(x), [=](M& m, VI* o) { m.corner_get_wedges(x, o); });
    num("master_tile_ID_of_corner", s(x), [=](M& m) { return m.master_tile_ID_of_corner(x); });
    if (!bg) { for (int k = 0; k < 2; k++) num("corner_volume", s(x) + "," + s(k), [=](M& m) { return (k ? m.corner_volume(x, true) : m.corner_volume(x)); }); pts("corner_get_coordinates", s(x), [=](M& m, std::vector<Point>* o) { m.corner_get_coordinates(x, o); });
      add("corner_get_facetization", s(x), [=](W& w, int d, Ans& a) { auto p = op(d);
        if (md == 3) { std::vector<std::array<int, 3>> f(d * 7); w.m->corner_get_facetization(x, &p, &f); a.push_back(f.size()); for (auto& g : f) for (int i : g) a.push_back(i); }
        else if (md == 2) { std::vector<std::array<int, 2>> f(d * 7); w.m->corner_get_facetization(x, &p, &f); a.push_back(f.size()); for (auto& g : f) for (int i : g) a.push_back(i); }
        else { std::vector<std::array<int, 1>> f(d * 7); w.m->corner_get_facetization(x, &p, &f); a.push_back(f.size()); for (auto& g : f) for (int i : g) a.push_back(i); }
        put(a, p); }); } }
  // lists, counts, types
  for (int k = 0; k < 7; k++) if (asked(q, k)) { for (int t = 0; t < 3; t++) { add(std::string("list of ") + KN[k] + "s", "type " + s(t), [=](W& w, int, Ans& a) { put(a, ref::list(*w.m, k, TY[t])); }); num(std::string("num_") + KN[k] + "s", "type " + s(t), [=](M& m) { return numt(m, k, TY[t]); }); num("num_entities", std::string(KN[k]) + ",type " + s(t), [=](M& m) { return m.num_entities(KINDS[k], TY[t]); });
      for (size_t i = 0; i < w0.tiles.size(); i++) { add(std::string("tile list of ") + KN[k] + "s", s(i) + ",type " + s(t), [=](W& w, int, Ans& a) { if (i >= w.tiles.size()) return; put(a, ref::list(*w.tiles[i], k, TY[t])); a.push_back(numt(*w.tiles[i], k, TY[t])); a.push_back(w.tiles[i]->num_entities(KINDS[k], TY[t])); a.push_back(w.tiles[i]->ID()); });
        if (k == 0 || k == 1 || k == 2) for (auto& rg : w0.regs) { std::string nm = rg->name(); add(std::string("tile get_set_entities"), s(i) + "," + nm + "," + KN[k] + ",type " + s(t), [=](W& w, int d, Ans& a) { if (i >= w.tiles.size()) return; VI o = ol(d); w.tiles[i]->get_set_entities(nm, KINDS[k], TY[t], &o); put(a, o); }); } }
      if (k <= 2) for (auto& rg : w0.regs) { std::string nm = rg->name(); add("get_set_entities", nm + "," + KN[k] + ",type " + s(t), [=](W& w, int d, Ans& a) { VI o = ol(d); w.m->get_set_entities(nm, KINDS[k], TY[t], &o); put(a, o); Jali::Mesh const& cm = *w.m; a.push_back(cm.get_set_size(nm, KINDS[k], TY[t])); a.push_back(w.m->get_set_size(nm, KINDS[k], TY[t])); }); } }
    for (int i : pick(ref::list(m0, k, Entity_type::ALL))) num("entity_get_type", std::string(KN[k]) + "," + s(i), [=](M& m) { return (int)m.entity_get_type(KINDS[k], i); });
    if (k <= 2) for (auto& rg : w0.regs) { std::string nm = rg->name();
      add("find_meshset", nm + "," + KN[k], [=](W& w, int, Ans& a) { auto p = w.m->find_meshset(nm, KINDS[k]); a.push_back(!!p); if (p) { put(a, p->name()); a.push_back((int)p->kind()); put(a, p->entities<Entity_type::ALL>()); put(a, p->entities<Entity_type::PARALLEL_OWNED>()); put(a, p->entities<Entity_type::PARALLEL_GHOST>()); a.push_back(p->num_entities()); for (int e : p->entities<Entity_type::ALL>()) a.push_back(p->index_in_set(e)); a.push_back(&p->mesh() == w.m.get()); } });
      add("find_meshset_from_region", nm + "," + KN[k], [=](W& w, int, Ans& a) { Jali::Mesh const& cm = *w.m; auto p = cm.find_meshset_from_region(nm, KINDS[k]); a.push_back(!!p); if (p) { put(a, p->name()); put(a, p->entities<Entity_type::ALL>()); } auto p2 = w.m->find_meshset_from_region(nm, KINDS[k], false); a.push_back(p == p2); });
      num("valid_region_name", nm + "," + KN[k], [=](M& m) { return m.valid_region_name(nm, KINDS[k]); }); }
    num("num_sets", KN[k], [=](M& m) { return m.num_sets(KINDS[k]); }); add("sets", KN[k], [=](W& w, int, Ans& a) { auto v = w.m->sets(KINDS[k]); a.push_back(v.size()); for (auto& p : v) put(a, p->name()); }); }
  num("num_sets", "", [=](M& m) { return m.num_sets(); }); add("sets", "", [=](W& w, int, Ans& a) { Jali::Mesh const& cm = *w.m; auto v = cm.sets(); a.push_back(v.size()); for (auto& p : v) put(a, p->name()); });
  num("space_dimension", "", [](M& m) { return m.space_dimension(); }); num("manifold_dimension", "", [](M& m) { return m.manifold_dimension(); }); num("num_tiles", "", [](M& m) { return m.num_tiles(); }); num("geom_type", "", [](M& m) { return (int)m.geom_type(); }); num("mesh_type", "", [](M& m) { return (int)m.mesh_type(); });
  add("tiles", "", [=](W& w, int, Ans& a) { a.push_back(w.m->tiles().size()); for (auto& t : w.m->tiles()) a.push_back(t->ID()); });
  // regions and geometric model
  for (size_t i = 0; i < w0.regs.size(); i++) { auto t = w0.regs[i]->type(); add("region attributes", s(i), [=](W& w, int, Ans& a) { auto& r = *w.regs[i]; put(a, r.name()); a.push_back(r.id()); a.push_back((int)r.type()); a.push_back(r.dimension()); a.push_back((int)r.lifecycle()); });
    if (t != JaliGeometry::Region_type::LABELEDSET && t != JaliGeometry::Region_type::LOGICAL) for (int k = 0; k < 3; k++) { Point p(sd); for (int j = 0; j < sd; j++) p[j] = k == 1 ? 0.5 : k == 2 ? 70 : 0; add("region inside", s(i) + "," + s(k), [=](W& w, int, Ans& a) { a.push_back(w.regs[i]->inside(p)); }); }
    std::string nm = w0.regs[i]->name(); add("FindRegion", nm, [=](W& w, int, Ans& a) { auto r = w.gm->FindRegion(nm); a.push_back(!!r); if (r) put(a, r->name()); auto r2 = w.gm->FindRegion((int)i + 1); a.push_back(!!r2); if (r2) put(a, r2->name()); a.push_back(w.gm->Num_Regions()); if ((int)i < w.gm->Num_Regions()) put(a, w.gm->Region_i(i)->name()); }); }
  return A;
}
static std::string strans(Ans const& a) { std::string s = vk::str(a); return s.size() > 300 ? s.substr(0, 300) + "..." : s; }
#endif
