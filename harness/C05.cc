// C05: histories of node moves and geometry updates
#include "refmesh.hh"
#include "Mesh_simple.hh"
using namespace ref;
typedef std::shared_ptr<Jali::Mesh> MeshP;
typedef std::vector<std::pair<std::string, std::vector<double>>> Geo;   // what -> values
static void add(Geo& g, std::string const& w, Point const& p) { std::vector<double> v; for (int i = 0; i < p.dim(); i++) v.push_back(p[i]); g.push_back({w, v}); }
static void add(Geo& g, std::string const& w, std::vector<Point> const& ps) { std::vector<double> v; for (auto& p : ps) for (int i = 0; i < p.dim(); i++) v.push_back(p[i]); g.push_back({w, v}); }
// all geometry of a mesh; rc: recomputed values; mixed: also coordinates that mix node positions and stored centroids
static Geo geo(Jali::Mesh const& m, bool rc, bool mixed, Req const& q) {
  Geo g; auto S = [](char const* k, int i) { return std::string(k) + " " + std::to_string(i); };
  for (int c : m.cells()) { if (rc && m.entity_get_type(Entity_kind::CELL, c) == Entity_type::BOUNDARY_GHOST) { g.push_back({S("skip cell", c), {}}); continue; } g.push_back({S("volume of cell", c), {(rc ? m.cell_volume(c, true) : m.cell_volume(c))}}); add(g, S("centroid of cell", c), (rc ? m.cell_centroid(c, true) : m.cell_centroid(c))); }
  if (q.f) for (int f : m.faces()) { g.push_back({S("area of face", f), {(rc ? m.face_area(f, true) : m.face_area(f))}}); add(g, S("centroid of face", f), (rc ? m.face_centroid(f, true) : m.face_centroid(f))); add(g, S("normal of face", f), (rc ? m.face_normal(f, true) : m.face_normal(f))); VI cs; m.face_get_cells(f, Entity_type::ALL, &cs); for (int c : cs) add(g, S("normal of face", f) + " out of cell " + std::to_string(c), m.face_normal(f, rc, c)); }
  if (q.e) for (int e : m.edges()) { g.push_back({S("length of edge", e), {(rc ? m.edge_length(e, true) : m.edge_length(e))}}); add(g, S("vector of edge", e), (rc ? m.edge_vector(e, true) : m.edge_vector(e))); if (rc) add(g, S("centroid of edge", e), m.edge_centroid(e)); int a, b; m.edge_get_nodes(e, &a, &b); add(g, S("vector of edge", e) + " from its second node", m.edge_vector(e, rc, b)); }
  auto skip = [&](Entity_kind k, int i) { return rc && m.entity_get_type(k, i) == Entity_type::BOUNDARY_GHOST; };
  if (q.s) for (int s : m.sides()) { if (skip(Entity_kind::SIDE, s)) continue; g.push_back({S("volume of side", s), {(rc ? m.side_volume(s, true) : m.side_volume(s))}}); add(g, S("facet normal of side", s), (rc ? m.side_facet_normal(s, true) : m.side_facet_normal(s)));
    if (mixed) for (int o = 0; o < 2; o++) { std::vector<Point> p; m.side_get_coordinates(s, &p, o); add(g, S("coordinates of side", s), p); } }
  if (q.w) for (int w : m.wedges()) { if (skip(Entity_kind::WEDGE, w)) continue; g.push_back({S("volume of wedge", w), {(rc ? m.wedge_volume(w, true) : m.wedge_volume(w))}}); for (int i = 0; i < 2; i++) add(g, S("facet normal of wedge", w), (rc ? m.wedge_facet_normal(w, i, true) : m.wedge_facet_normal(w, i)));
    if (mixed) for (int o = 0; o < 2; o++) { std::vector<Point> p; m.wedge_get_coordinates(w, &p, o); add(g, S("coordinates of wedge", w), p); } }
  if (q.c) for (int k : m.corners()) { if (skip(Entity_kind::CORNER, k)) continue; g.push_back({S("volume of corner", k), {(rc ? m.corner_volume(k, true) : m.corner_volume(k))}});
    if (mixed && m.entity_get_type(Entity_kind::CORNER, k) != Entity_type::BOUNDARY_GHOST) { std::vector<Point> p; m.corner_get_coordinates(k, &p); add(g, S("coordinates of corner", k), p);
      p.clear(); if (m.manifold_dimension() == 3) { std::vector<std::array<int, 3>> f; m.corner_get_facetization(k, &p, &f); } else if (m.manifold_dimension() == 2) { std::vector<std::array<int, 2>> f; m.corner_get_facetization(k, &p, &f); } else { std::vector<std::array<int, 1>> f; m.corner_get_facetization(k, &p, &f); } add(g, S("facetization of corner", k), p); } }
  return g;
}
static std::string kind(std::string const& w) { std::string o; for (size_t i = 0; i < w.size(); i++) { if (isdigit(w[i])) continue; o += w[i]; } while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
// sc < 0: values are compared on the scale of the largest one of their kind
static void compare(Geo const& a, Geo const& b, std::string const& how, std::string const& cx, double sc) {
  std::map<std::string, double> big; bool rel = sc < 0; if (rel) for (auto& x : b) for (double v : x.second) { double& y = big[kind(x.first)]; y = std::max(y, std::fabs(v)); }
  if (!vk::eq(a.size(), b.size(), "number of " + how + " values", cx)) return;
  for (size_t i = 0; i < a.size(); i++) { vk::cmp(a[i].second.size()); if (rel) sc = big[kind(a[i].first)]; bool good = a[i].second.size() == b[i].second.size(); for (size_t j = 0; good && j < a[i].second.size(); j++) if (!vk::near(a[i].second[j], b[i].second[j], sc)) good = false;
    if (!good) vk::fail(how + ": " + kind(a[i].first), cx + " " + a[i].first + " got " + vk::str(a[i].second) + " fresh mesh has " + vk::str(b[i].second)); }
}
// description of an existing mesh, to make fresh ones at other positions
static Ref extract(Jali::Mesh const& m) {
  Ref r; r.name = "x"; r.md = m.manifold_dimension(); r.sd = m.space_dimension();
  for (int n : m.nodes()) { Point p; m.node_get_coordinates(n, &p); r.X.push_back(v3(p)); r.ntype.push_back(Entity_type::PARALLEL_OWNED); }
  for (int c : m.cells()) { VI n, f, e; std::vector<dir_t> d; m.cell_get_nodes(c, &n); m.cell_get_faces_and_dirs(c, &f, &d); r.cn.push_back(n); r.cf.push_back(f); r.cfd.push_back(as(d)); r.ce.push_back(e); r.ced.push_back(VI()); r.ctype.push_back(Entity_type::PARALLEL_OWNED); r.src.push_back({c}); }
  for (int f : m.faces()) { VI n, c, e; std::vector<dir_t> d; m.face_get_nodes(f, &n); m.face_get_cells(f, Entity_type::ALL, &c); r.fn.push_back(n); r.fc.push_back(c); r.fe.push_back(e); r.fed.push_back(as(d)); r.ftype.push_back(Entity_type::PARALLEL_OWNED); }
  return r;
}
struct World { std::string name; std::function<MeshP(std::vector<V3> const&, bool fresh)> make; std::vector<V3> X; std::vector<int> nodes; std::vector<V3> disp; Req q; int sd; bool whole = false; double sc = 1; };   // whole: the only move takes every node along, each by its own displacement
static World refworld(Ref const& r, Req const& q, std::vector<int> nodes) {
  World w; w.name = r.name; w.X = r.X; w.q = q; w.sd = r.sd; w.nodes = nodes; Ref rr = r;
  w.make = [rr, q](std::vector<V3> const& X, bool) { Ref t = rr; t.X = X; return MeshP(ref::make(t, q)); };
  w.disp = {P(0.125, 0.0625, r.sd == 3 ? 0.03125 : 0), P(-0.0625, 0.1875, r.sd == 3 ? -0.125 : 0)}; return w; }
static V3 moved(World const& w, int n, int v) { return w.whole ? w.X[n] + (1 - 0.25 * (n % 4)) * w.disp[v - 1] : w.X[n] + w.disp[v - 1]; }
static void histories(World const& w, int depth) {
  std::map<std::vector<int>, std::pair<Geo, Geo>> fresh; double sc = w.sc;
  auto pos = [&](std::vector<int> const& st) { auto X = w.X; if (w.whole) { if (st[0]) for (size_t n = 0; n < X.size(); n++) X[n] = moved(w, n, st[0]); return X; } for (size_t k = 0; k < w.nodes.size(); k++) if (st[k]) X[w.nodes[k]] = moved(w, w.nodes[k], st[k]); return X; };
  auto ideal = [&](std::vector<int> const& st) -> std::pair<Geo, Geo>& { auto it = fresh.find(st); if (it == fresh.end()) { auto m = w.make(pos(st), true); it = fresh.insert({st, {geo(*m, false, false, w.q), geo(*m, false, true, w.q)}}).first; } return it->second; };
  std::map<std::vector<int>, Geo> freshrc; auto idealrc = [&](std::vector<int> const& st) -> Geo& { auto it = freshrc.find(st); if (it == freshrc.end()) { auto m = w.make(pos(st), true); it = freshrc.insert({st, geo(*m, true, false, w.q)}).first; } return it->second; };
  int K = w.whole ? 1 : w.nodes.size(), nops = K * 3 + 1; std::set<std::pair<std::vector<int>, std::vector<int>>> seen;
  auto examine = [&](Jali::Mesh& m, std::vector<int> const& cur, std::vector<int> const& upd, std::string const& cx) {
    auto X = pos(cur); for (size_t n = 0; n < X.size(); n++) { Point p(7, 7, 7); m.node_get_coordinates(n, &p); bool g = p.dim() == w.sd; for (int i = 0; g && i < w.sd; i++) if (p[i] != X[n][i]) g = false; vk::ok(g, "node position is the one last written", cx + " node " + vk::str(n));
      if (w.sd == 1) { double d = 7; m.node_get_coordinates(n, &d); vk::ok(d == X[n][0], "node position is the one last written", cx); } if (w.sd == 2) { std::array<double, 2> d; m.node_get_coordinates(n, &d); vk::ok(d[0] == X[n][0] && d[1] == X[n][1], "node position is the one last written", cx); } if (w.sd == 3) { std::array<double, 3> d; m.node_get_coordinates(n, &d); vk::ok(d[0] == X[n][0] && d[1] == X[n][1] && d[2] == X[n][2], "node position is the one last written", cx); } }
    // topology-derived coordinates follow the nodes at once
    for (int c : m.cells()) { VI ns; std::vector<Point> p; m.cell_get_nodes(c, &ns); m.cell_get_coordinates(c, &p); bool g = p.size() == ns.size(); for (size_t i = 0; g && i < p.size(); i++) for (int j = 0; j < w.sd; j++) if (p[i][j] != X[ns[i]][j]) g = false; vk::ok(g, "cell coordinates are the current node positions", cx + " cell " + vk::str(c)); }
    if (w.q.f) for (int f : m.faces()) { VI ns; std::vector<Point> p; m.face_get_nodes(f, &ns); m.face_get_coordinates(f, &p); bool g = p.size() == ns.size(); for (size_t i = 0; g && i < p.size(); i++) for (int j = 0; j < w.sd; j++) if (p[i][j] != X[ns[i]][j]) g = false; vk::ok(g, "face coordinates are the current node positions", cx + " face " + vk::str(f)); }
    bool same = cur == upd; compare(geo(m, false, same, w.q), same ? ideal(upd).second : ideal(upd).first, "stored value", cx, sc);
    compare(geo(m, true, false, w.q), idealrc(cur), "recomputed value", cx, sc); };
  // recomputed values of a fresh mesh are its stored ones
  for (int len = 0; len <= depth; len++) { long tot = 1; for (int i = 0; i < len; i++) tot *= nops;
    for (long h = 0; h < tot; h++) for (int mode = 0; mode < (len < depth ? 1 : 2); mode++) {   // mode 1: examine after every step
      std::vector<int> cur(K, 0), upd(K, 0); MeshP m = w.make(w.X, false); std::string cx; long y = h; bool useless = false; int last = -1;
      std::vector<int> ops; for (int i = 0; i < len; i++) { ops.push_back(y % nops); y /= nops; }
      vk::set_current("history " + vk::str(ops));
      for (int i = 0; i < len && !useless; i++) { int op = ops[i]; vk::transitions();
        if (op == nops - 1) { m->update_geometric_quantities(); upd = cur; cx += "U;"; }
        else { int k = op / 3, v = op % 3; cur[k] = v; auto X = pos(cur); VI g = {w.nodes[k]}; if (w.whole) { g.clear(); for (size_t n = 0; n < X.size(); n++) g.push_back(n); } for (int n : g) { auto x = X[n]; if (v == 1) m->node_set_coordinates(n, &x[0]); else m->node_set_coordinates(n, pt(x, w.sd)); } cx += w.whole ? "all:" + std::to_string(v) + ";" : "n" + std::to_string(w.nodes[k]) + ":" + std::to_string(v) + ";"; }
        if (mode) examine(*m, cur, upd, cx); last = op; }
      (void)last;
      if (!mode) examine(*m, cur, upd, cx); vk::traces(); if (seen.insert({cur, upd}).second) vk::states(); vk::beat();
      if (vk::failed()) return; } }
}
// long histories: step i of history (a, b) is operation a*i+b, examined now and then and at the end
static void longs(World const& w, int len) {
  World const& W = w; int K = W.whole ? 1 : W.nodes.size(), nops = K * 3 + 1;
  auto pos = [&](std::vector<int> const& st) { auto X = W.X; if (W.whole) { if (st[0]) for (size_t n = 0; n < X.size(); n++) X[n] = moved(W, n, st[0]); return X; } for (size_t k = 0; k < W.nodes.size(); k++) if (st[k]) X[W.nodes[k]] = moved(W, W.nodes[k], st[k]); return X; };
  std::map<std::vector<int>, std::array<Geo, 3>> fresh; auto ideal = [&](std::vector<int> const& st) -> std::array<Geo, 3>& { auto it = fresh.find(st); if (it == fresh.end()) { auto m = W.make(pos(st), true); it = fresh.insert({st, {{geo(*m, false, false, W.q), geo(*m, false, true, W.q), geo(*m, true, false, W.q)}}}).first; } return it->second; };
  for (int a = 1; a < nops; a++) for (int b = 0; b < nops; b += 2) { std::vector<int> cur(K, 0), upd(K, 0); MeshP m = W.make(W.X, false); std::string cx = "long history " + vk::str(a) + "," + vk::str(b);
    for (int i = 0; i < len; i++) { int op = (a * i + b + i / nops) % nops; vk::transitions();
      if (op == nops - 1) { m->update_geometric_quantities(); upd = cur; }
      else { int k = op / 3, v = op % 3; cur[k] = v; auto X = pos(cur); VI g = {W.nodes[k]}; if (W.whole) { g.clear(); for (size_t n = 0; n < X.size(); n++) g.push_back(n); } for (int n : g) { auto x = X[n]; if ((v + i) % 2) m->node_set_coordinates(n, &x[0]); else m->node_set_coordinates(n, pt(x, W.sd)); } }
      if (i % 7 == 6 || i == len - 1) { bool same = cur == upd; compare(geo(*m, false, same, W.q), ideal(upd)[same], "stored value", cx + " step " + vk::str(i), 1); compare(geo(*m, true, false, W.q), ideal(cur)[2], "recomputed value", cx + " step " + vk::str(i), 1);
        auto X = pos(cur); for (size_t n = 0; n < X.size(); n++) { Point p; m->node_get_coordinates(n, &p); for (int j = 0; j < W.sd; j++) if (p[j] != X[n][j]) { vk::fail("node position is the one last written", cx + " node " + vk::str(n)); break; } } vk::beat(); } }
    vk::traces(); if (vk::failed()) return; }
}
VK_CHECK("C05", "model_checking", "one case = one mesh (generated 1D Cartesian/spherical, generated 3D, 2D/3D/surface reference meshes with ghosts and boundary ghosts) x requested kinds: every history up to the stated length over {move one of 2 nodes (or every node at once) to one of 3 positions by either setter, update}, replayed on the real mesh and examined at its end (longest ones also after every step): node positions, every stored quantity against a fresh mesh at the positions of the last update, every recomputed quantity against a fresh mesh at the current positions; the same with moves by 1e-9 and 1e-13, and with meshes a billionth in size or 10^7 times as large; long histories of 40 (thorough 120) steps") {
  Exceptions::set_exception_behavior_raise();
  int D = vk::thorough ? 4 : 3; Req all = Req::all();
  auto go = [&](World w) { vk::run(w.name, [&] { histories(w, D); }); World t = w; w.whole = true; vk::run(w.name + " every node", [&] { histories(w, D); });
    vk::run(w.name + " long", [&] { longs(t, vk::thorough ? 120 : 40); longs(w, vk::thorough ? 120 : 40); });
    // moves so small that only the positions themselves tell
    t.disp = {1e-9 * t.disp[0], 1e-13 * t.disp[1]}; vk::run(w.name + " tiny moves", [&] { histories(t, D - 1); });
    // meshes of any size
    if (w.sd < 3 || w.name.substr(0, 6) != "simple") for (double z : {1.0 / 1073741824, 16777216.0}) { World u = w; u.whole = false; u.sc = -1; for (auto& x : u.X) x = z * x; for (auto& x : u.disp) x = z * x; vk::run(u.name + " of size " + vk::str(z), [&] { histories(u, D - 1); }); u.whole = true; vk::run(u.name + " of size " + vk::str(z) + " every node", [&] { histories(u, D - 1); }); } };
  for (int n = 1; n <= 3; n++) for (int sph = 0; sph < 2; sph++) { World w; w.name = "simple1d " + vk::str(n) + (sph ? " spherical" : ""); w.sd = 1; w.q = all; for (int i = 0; i <= n; i++) w.X.push_back(P(1 + i)); w.nodes = {0, n}; w.disp = {P(0.125), P(-0.375)};
    w.make = [sph](std::vector<V3> const& X, bool) { std::vector<double> x; for (auto& p : X) x.push_back(p[0]); return MeshP(new Jali::Mesh_simple(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, true, true, 0, 0, 0, false, Jali::Partitioner_type::INDEX, sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN)); }; go(w); }
  auto simple3 = [](int a, int b, int c, Req q) { return std::make_shared<Jali::Mesh_simple>(0., 0., 0., (double)a, (double)b, (double)c, a, b, c, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c); };
  for (int v = 0; v < 3; v++) { int a = v ? 2 : 1, b = v == 2 ? 2 : 1; Req q; World w; w.name = "simple3d " + vk::str(a) + vk::str(b); w.sd = 3; w.q = q; auto m0 = std::make_shared<Ref>();
    { auto m = simple3(a, b, 1, q); *m0 = extract(*m); } w.X = m0->X; w.nodes = {(int)w.X.size() - 1, 1}; w.disp = {P(0.125, 0.0625, -0.03125), P(-0.0625, 0.1875, 0.125)};
    w.make = [=](std::vector<V3> const& X, bool fresh) { if (!fresh) return MeshP(simple3(a, b, 1, q)); Ref r = *m0; r.X = X; return MeshP(ref::make(r, q)); }; go(w); }
  std::vector<std::pair<Desc, std::vector<int>>> ds; for (auto& d : family2d()) if (d.name == "tri2" || d.name == "quads2x1" || d.name == "ell" || d.name == "mixed") ds.push_back({d, {2, 1}}); for (auto& d : familysurf()) if (d.name != "cube") ds.push_back({d, {1, 4}}); for (auto& d : family3d()) if (d.name == "tet2" || d.name == "pyrhex" || d.name == "hexes2x1x1") ds.push_back({d, {3, 4}}); ds.push_back({chain({0, 1, 2.5}), {0, 1}});
  for (auto& d : ds) for (auto o : labellings(d.first.cells.size(), false, d.first.md == d.first.sd && d.first.md > 1)) for (int rq = 0; rq < 4; rq++) { Req q = all; if (rq == 1) { q = Req(); q.e = true; } if (rq == 2) { q = Req(); q.f = d.first.md == 3; } if (rq == 3) { q.w = q.c = false; } if (d.first.md == 1) { q.s = q.w = q.c = false; if (rq == 3) continue; } if (!vk::thorough && rq && !o.ghost.empty()) continue;
    o.flip = 3; World w = refworld(elaborate(d.first, o), q, d.second); w.name += (q.f ? " f" : "") + std::string(q.e ? "e" : "") + (q.s ? "s" : "") + (q.w ? "w" : ""); go(w); }
  // many cells, entities with many neighbours
  for (auto d : allbig()) for (int gh = 0; gh < (d.md > 1 ? 2 : 1); gh++) { Opt o; o.flip = 3; if (gh) { o.bghost = d.md == d.sd; o.ghost.assign(d.cells.size(), 0); for (size_t i = 0; i < d.cells.size(); i += 2) o.ghost[i] = 1; }
    Req q = all; if (d.md == 1) q.s = q.w = q.c = false; Ref r = elaborate(d, o); World w = refworld(r, q, {r.cn[0][0], r.cn[r.nreal() - 1].back()}); w.disp = {P(0.0625, 0.03125, r.sd == 3 ? 0.03125 : 0), P(-0.03125, 0.0625, r.sd == 3 ? -0.0625 : 0)}; w.name = "large " + w.name;
    vk::run(w.name, [&] { histories(w, vk::thorough ? 3 : 2); }); w.whole = true; vk::run(w.name + " every node", [&] { histories(w, vk::thorough ? 3 : 2); }); }
}
