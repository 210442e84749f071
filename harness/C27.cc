// C27: histories of factory options, and the meshes made in every option state
#include "tiles.hh"
#include "MeshFactory.hh"
#include <deque>
#ifdef VARIANT_MSTK
#include "Mesh_MSTK.hh"
namespace fakemstk { thread_local int fail = 0; thread_local int made = 0; }
#endif
using namespace ref;
using Jali::Partitioner_type; using JaliGeometry::Geom_type;
typedef JaliGeometry::GeometricModel* GM;
static GM gms[4];      // a model for each dimension
enum { FW, PART, GEOM, DGHOST, BGHOST, TILES, TGHOST, CONTIG, EDGE, SIDE, WEDGE, CORNER, GMOD, NOPT };
static char const* const ON[NOPT] = {"framework", "partitioner", "mesh geometry", "ghost layers of distributed mesh", "boundary ghosts", "tiles", "ghost layers of tiles", "contiguous GIDs", "edges", "sides", "wedges", "corners", "geometric model"};
typedef std::array<int, NOPT> St;
static Partitioner_type const PT[] = {Partitioner_type::INDEX, Partitioner_type::METIS, Partitioner_type::BLOCK};
static Geom_type const GT[] = {Geom_type::CARTESIAN, Geom_type::SPHERICAL, Geom_type::CYLINDRICAL};
static Jali::MeshFramework_t const FWS[] = {Jali::MSTK, Jali::Simple};
static int const NT[] = {0, 2, 3}, NG[] = {0, 1, 2}, ND[] = {1, 0, 2};
static Entity_kind const EK[] = {Entity_kind::EDGE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER};
struct Op { std::string name; std::function<void(Jali::MeshFactory&)> go; std::function<void(St&)> model; bool throws; };
struct Snap { St s; bool ok; std::string why; };
static int idx(int v, int const* a, int n) { for (int i = 0; i < n; i++) if (a[i] == v) return i; return -1; }
static bool has(std::vector<Entity_kind> const& l, Entity_kind k) { return std::find(l.begin(), l.end(), k) != l.end(); }
// what the factory reports; contiguous GIDs cannot be asked for
static St report(Jali::MeshFactory const& f, St const& want, St const& def) {
  St s; s[FW] = f.framework() == Jali::MSTK ? 0 : f.framework() == Jali::Simple ? 1 : -1; s[PART] = f.partitioner() == PT[0] ? 0 : f.partitioner() == PT[1] ? 1 : f.partitioner() == PT[2] ? 2 : -1; s[GEOM] = f.mesh_geometry() == GT[0] ? 0 : f.mesh_geometry() == GT[1] ? 1 : f.mesh_geometry() == GT[2] ? 2 : -1;
  s[DGHOST] = idx(f.num_ghost_layers_distmesh(), ND, 3); s[BGHOST] = f.boundary_ghosts_requested(); s[TILES] = idx(f.num_tiles(), NT, 3); s[TGHOST] = idx(f.num_ghost_layers_tile(), NG, 3); s[CONTIG] = want[CONTIG];
  auto l = f.included_entities(); for (int i = 0; i < 4; i++) s[EDGE + i] = has(l, EK[i]); if (!has(l, Entity_kind::NODE) || !has(l, Entity_kind::FACE) || !has(l, Entity_kind::CELL)) s[EDGE] = -1; if (l.size() != 3u + s[EDGE] + s[SIDE] + s[WEDGE] + s[CORNER]) s[SIDE] = -2;
  GM g = f.geometric_model(); s[GMOD] = g == nullptr ? 0 : g == gms[1] ? 1 : g == gms[2] ? 2 : g == gms[3] ? 3 : -1; (void)def; return s; }
static std::string show(St const& s) { return vk::str(VI(s.begin(), s.end())); }
static bool same(St const& a, St const& b, std::string const& cx) { vk::cmp(); for (int i = 0; i < NOPT; i++) if (a[i] != b[i]) { vk::fail(std::string("reported ") + ON[i], cx + " got " + show(a) + " expected " + show(b)); return false; } return true; }
static std::vector<Op> alphabet(St const& def, int level) {
  std::vector<Op> v; auto add = [&](std::string n, std::function<void(Jali::MeshFactory&)> g, std::function<void(St&)> m, bool th = false) { v.push_back({n, g, m, th}); };
  int nf = Jali::framework_available(Jali::MSTK) ? 2 : 1;
  for (int i = 2 - nf; i < 2; i++) add(i ? "framework Simple" : "framework MSTK", [=](Jali::MeshFactory& f) { f.framework(FWS[i]); }, [=](St& s) { s[FW] = i; });
  for (int bad : {2, 3, 4}) { if (bad == 2 && nf == 2) continue; add("framework " + std::to_string(bad) + " (not available)", [=](Jali::MeshFactory& f) { f.framework((Jali::MeshFramework_t)bad); }, [](St&) {}, true); }
  int np = level ? 3 : 2;
  for (int i = 0; i < np; i++) add("partitioner " + std::to_string(i), [=](Jali::MeshFactory& f) { f.partitioner(PT[i]); }, [=](St& s) { s[PART] = i; });
  for (int i = 0; i < np; i++) add("geometry " + std::to_string(i), [=](Jali::MeshFactory& f) { f.mesh_geometry(GT[i]); }, [=](St& s) { s[GEOM] = i; });
  for (int i = 0; i < np; i++) add("ghost layers " + std::to_string(ND[i]), [=](Jali::MeshFactory& f) { f.num_ghost_layers_distmesh(ND[i]); }, [=](St& s) { s[DGHOST] = i; });
  for (int i = 0; i < 2; i++) add("boundary ghosts " + std::to_string(i), [=](Jali::MeshFactory& f) { f.boundary_ghosts_requested(i); }, [=](St& s) { s[BGHOST] = i; });
  for (int i = 0; i < np; i++) add("tiles " + std::to_string(NT[i]), [=](Jali::MeshFactory& f) { f.num_tiles(NT[i]); }, [=](St& s) { s[TILES] = i; });
  for (int i = 0; i < np; i++) add("tile ghost layers " + std::to_string(NG[i]), [=](Jali::MeshFactory& f) { f.num_ghost_layers_tile(NG[i]); }, [=](St& s) { s[TGHOST] = i; });
  for (int i = 0; i < 2; i++) add("contiguous " + std::to_string(i), [=](Jali::MeshFactory& f) { f.contiguous_gids(i); }, [=](St& s) { s[CONTIG] = i; });
  for (int k = 0; k < 4; k++) { add("include " + std::string(ON[EDGE + k]), [=](Jali::MeshFactory& f) { f.included_entities(EK[k]); }, [=](St& s) { s[EDGE + k] = 1; }); add("exclude " + std::string(ON[EDGE + k]), [=](Jali::MeshFactory& f) { f.excluded_entities(std::vector<Entity_kind>{EK[k]}); }, [=](St& s) { s[EDGE + k] = 0; }); }
  add("include node, face, cell", [](Jali::MeshFactory& f) { f.included_entities({Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE}); }, [](St&) {});
  add("include list wedge, edge", [](Jali::MeshFactory& f) { f.included_entities(std::vector<Entity_kind>{Entity_kind::WEDGE, Entity_kind::EDGE}); }, [](St& s) { s[EDGE] = s[WEDGE] = 1; });
  add("include all", [](Jali::MeshFactory& f) { f.included_entities(Entity_kind::ALL_KIND); }, [](St& s) { s[EDGE] = s[SIDE] = s[WEDGE] = s[CORNER] = 1; });
  add("exclude node, face, cell", [](Jali::MeshFactory& f) { f.excluded_entities({Entity_kind::CELL, Entity_kind::NODE, Entity_kind::FACE}); }, [](St&) {});
  add("include kinds that are none", [](Jali::MeshFactory& f) { for (auto k : {Entity_kind::ANY_KIND, Entity_kind::UNKNOWN_KIND, Entity_kind::FACET, Entity_kind::BOUNDARY_FACE}) f.included_entities(k); }, [](St&) {});
  add("exclude kinds that are none", [](Jali::MeshFactory& f) { f.excluded_entities({Entity_kind::UNKNOWN_KIND, Entity_kind::FACET, Entity_kind::BOUNDARY_FACE}); }, [](St&) {});
  add("exclude list side, corner, face", [](Jali::MeshFactory& f) { f.excluded_entities({Entity_kind::SIDE, Entity_kind::CORNER, Entity_kind::FACE}); }, [](St& s) { s[SIDE] = s[CORNER] = 0; });
  for (int g = 0; g <= (level ? 3 : 1); g++) add("geometric model " + std::to_string(g), [=](Jali::MeshFactory& f) { f.geometric_model(gms[g]); }, [=](St& s) { s[GMOD] = g; });
  add("reset", [](Jali::MeshFactory& f) { f.reset_options(); }, [=](St& s) { s = def; });
  add("make a mesh", [](Jali::MeshFactory& f) { try { f(std::vector<double>{0, 1, 2}); } catch (Errors::Message const&) {} }, [](St&) {});
  return v; }
// expectations on a mesh whatever made it
static bool req(St const& s, int k) { bool c = s[CORNER], w = s[WEDGE] || c, sd = s[SIDE] || w, e = s[EDGE] || sd; return k == 0 ? e : k == 1 ? sd : k == 2 ? w : c; }
static Req asReq(St const& s) { Req q; q.f = true; q.e = s[EDGE]; q.s = s[SIDE]; q.w = s[WEDGE]; q.c = s[CORNER]; q.tiles = NT[s[TILES]]; q.tghost = NG[s[TGHOST]]; q.part = PT[s[PART]]; q.gt = GT[s[GEOM]]; return q; }
static void sametiles(Jali::Mesh& m, Jali::Mesh& d, std::string const& cx) { if (!vk::eq((int)m.num_tiles(), (int)d.num_tiles(), "number of tiles of the mesh", cx)) return; for (int t = 0; t < (int)m.num_tiles(); t++) { auto& a = *m.tiles()[t]; auto& b = *d.tiles()[t]; vk::eq(a.cells<Entity_type::PARALLEL_OWNED>(), b.cells<Entity_type::PARALLEL_OWNED>(), "cells of a tile of the mesh", cx); vk::eq(vk::sorted(a.cells<Entity_type::PARALLEL_GHOST>()), vk::sorted(b.cells<Entity_type::PARALLEL_GHOST>()), "ghost cells of a tile of the mesh", cx); } }
static void kinds(Jali::Mesh& m, St const& s, std::string const& cx) { int n[4] = {(int)m.num_edges(), (int)m.num_sides(), (int)m.num_wedges(), (int)m.num_corners()}; vk::ok(m.num_faces() > 0 && m.num_nodes() > 0 && m.num_cells() > 0, "nodes, faces or cells missing", cx); for (int k = 0; k < 4; k++) if (req(s, k)) vk::ok(n[k] > 0, std::string("requested ") + ON[EDGE + k] + " missing", cx); else if (k) vk::ok(n[k] == 0, std::string(ON[EDGE + k]) + " made though not requested", cx); }
static double vol1(double a, double b, int g) { return g == 1 ? 4.0 / 3.0 * M_PI * (b * b * b - a * a * a) : b - a; }
template <class F> static std::shared_ptr<Jali::Mesh> attempt(F f) { try { return f(); } catch (Errors::Message const&) { return nullptr; } }
static void box(Jali::Mesh& m, std::vector<double> lo, std::vector<double> hi, int nc, std::string const& cx) {
  int d = lo.size(); if (!vk::eq((int)m.space_dimension(), d, "dimension of the mesh", cx)) return; vk::eq((int)m.num_cells(), nc, "number of cells of the mesh", cx);
  std::vector<double> l(d, 1e300), h(d, -1e300); for (int n = 0; n < (int)m.num_nodes(); n++) { Point p; m.node_get_coordinates(n, &p); for (int i = 0; i < d; i++) { l[i] = std::min(l[i], p[i]); h[i] = std::max(h[i], p[i]); } }
  for (int i = 0; i < d; i++) { vk::feq(l[i], lo[i], "lower corner of the mesh", cx); vk::feq(h[i], hi[i], "upper corner of the mesh", cx); } }
static void creations(Jali::MeshFactory& f, St const& s, std::string const& cx) {
  bool simple = s[FW] == 1;
  if (simple) {
    // 1D, by coordinates and by count
    std::vector<double> x = {1, 2, 4, 4.5, 7, 8}; bool gmok = s[GMOD] == 0 || s[GMOD] == 1;
    for (int how = 0; how < 2; how++) { if (how) x = {1, 1.5, 2, 2.5, 3}; if (s[TILES] && s[PART] == 2 && !how) continue;   // blocks need uniform cells
      if (s[GEOM] == 2) continue;   // cylindrical 1D meshes are not supported
      auto m = attempt([&] { return how ? f(1.0, 3.0, 4) : f(x); }); std::string c = cx + (how ? " 1D by count" : " 1D"); if (!gmok) { vk::ok(!m, "mesh made with a geometric model of another dimension", c); continue; } if (!vk::ok((bool)m, "mesh not made", c)) continue;
      box(*m, {x.front()}, {x.back()}, x.size() - 1, c); kinds(*m, s, c); vk::ok(m->geometric_model() == gms[s[GMOD]], "geometric model of the mesh", c); vk::ok(m->geom_type() == GT[s[GEOM]], "geometry of the mesh", c);
      for (size_t i = 0; i + 1 < x.size() && !vk::failed(); i++) vk::feq(m->cell_volume(i), vol1(x[i], x[i + 1], s[GEOM]), "cell volume", c);
      Req q = asReq(s); auto d = std::make_shared<Jali::Mesh_simple>(x, MPI_COMM_WORLD, (GM) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 1, false, q.part, q.gt); sametiles(*m, *d, c); }
    // 3D (this framework has no edges in 3D)
    if (!req(s, 0)) { bool ok3 = s[GMOD] == 0 || s[GMOD] == 3; auto m = attempt([&] { return f(0, 1, 2, 4, 2, 5, 4, 2, 3); }); std::string c = cx + " 3D"; if (!ok3) vk::ok(!m, "mesh made with a geometric model of another dimension", c);
      else if (vk::ok((bool)m, "mesh not made", c)) { box(*m, {0, 1, 2}, {4, 2, 5}, 24, c); kinds(*m, s, c); vk::ok(m->geometric_model() == gms[s[GMOD]], "geometric model of the mesh", c); for (int i = 0; i < 24; i++) vk::feq(m->cell_volume(i), 0.5, "cell volume", c);
        Req q = asReq(s); auto d = std::make_shared<Jali::Mesh_simple>(0., 1., 2., 4., 2., 5., 4, 2, 3, MPI_COMM_WORLD, (GM) nullptr, q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 1, false, q.part); sametiles(*m, *d, c); } }
  }
#ifdef VARIANT_MSTK
  else {
    auto chk = [&](std::shared_ptr<Jali::Mesh> m, std::string const& call, bool gmok, bool geo, std::string const& c) -> fakemstk::Args* { if (!gmok) { vk::ok(!m, "mesh made with a geometric model of another dimension", c); return nullptr; } if (!vk::ok((bool)m, "mesh not made", c)) return nullptr; auto* k = dynamic_cast<Jali::Mesh_MSTK*>(m.get()); if (!vk::ok(k != nullptr, "mesh of another framework", c)) return nullptr; auto& a = k->a;
      vk::eq(a.call, call, "kind of mesh", c); vk::eq(a.f, true, "faces passed on", c); vk::eq(a.e, (bool)s[EDGE], "edges passed on", c); vk::eq(a.s, (bool)s[SIDE], "sides passed on", c); vk::eq(a.w, (bool)s[WEDGE], "wedges passed on", c); vk::eq(a.c, (bool)s[CORNER], "corners passed on", c);
      vk::eq(a.tiles, NT[s[TILES]], "tiles passed on", c); vk::eq(a.tghost, NG[s[TGHOST]], "tile ghost layers passed on", c); vk::eq(a.dghost, ND[s[DGHOST]], "ghost layers passed on", c); vk::eq(a.bghost, (bool)s[BGHOST], "boundary ghosts passed on", c); vk::ok(a.part == PT[s[PART]], "partitioner passed on", c); vk::eq(a.contig, (bool)s[CONTIG], "contiguous GIDs passed on", c);
      if (geo) vk::ok(a.gt == GT[s[GEOM]], "geometry passed on", c); if (call != "extract") vk::ok(a.gm == gms[s[GMOD]], "geometric model passed on", c); kinds(*m, s, c); return &a; };
    if (s[PART] == 2 && s[TILES]) return;      // blocks are judged with the real framework
    std::shared_ptr<Jali::Mesh> m;
    m = attempt([&] { return f(0, 1, 2, 4, 2, 5, 2, 1, 2); }); if (auto a = chk(m, "3d", s[GMOD] == 0 || s[GMOD] == 3, false, cx + " 3D")) { vk::eq(a->box, std::vector<double>{0, 1, 2, 4, 2, 5}, "box passed on", cx); vk::eq(a->n, VI{2, 1, 2}, "cell counts passed on", cx); }
    m = attempt([&] { return f(0, 1, 4, 2, 3, 2); }); if (auto a = chk(m, "2d", s[GMOD] == 0 || s[GMOD] == 2, true, cx + " 2D")) { vk::eq(a->box, std::vector<double>{0, 1, 4, 2}, "box passed on", cx); vk::eq(a->n, VI{3, 2}, "cell counts passed on", cx); }
    for (std::string fn : {"some2d.exo", "some3d.exo"}) { m = attempt([&] { return f(fn); }); if (auto a = chk(m, "file", s[GMOD] == 0 || s[GMOD] == (fn[4] - '0'), true, cx + " " + fn)) vk::eq(a->file, fn, "file name passed on", cx); }
    static std::shared_ptr<RefMesh> in = make(elaborate(quads(2, 1), Opt())); std::vector<std::string> sets = {"A", "B"}; for (int fl = 0; fl < 2; fl++) for (int ex = 0; ex < 2; ex++) { m = attempt([&] { return f(in, sets, fl ? Entity_kind::FACE : Entity_kind::CELL, fl, ex); }); if (auto a = chk(m, "extract", true, true, cx + " extract")) { vk::eq(a->sets, sets, "set names passed on", cx); vk::ok(a->inmesh == (Jali::Mesh*)in.get() && a->setkind == (int)(fl ? Entity_kind::FACE : Entity_kind::CELL) && a->flatten == (bool)fl && a->extrude == (bool)ex, "source mesh, kind, flatten or extrude passed on", cx); } }
  }
#endif
  // what is refused, and meshes of fewer cells than tiles: settings are compared by the caller
  auto odd = [&](std::function<void()> g) { try { g(); } catch (std::exception const&) {} };
  odd([&] { f(0, 0, 0, 1, 1, 1, 0, 1, 1); }); odd([&] { f(0, 0, 0, 0, 1, 1, 1, 1, 1); }); odd([&] { f(0, 0, 1, 1, 0, 2); }); odd([&] { f(0, 0, 1, 0, 2, 2); }); odd([&] { f(std::vector<double>{1}); }); odd([&] { f(1.0, 0.0, 3); }); odd([&] { f(0.0, 1.0, 0); });
  if (simple) { odd([&] { f(std::string("nothing.exo")); }); odd([&] { f(0, 0, 1, 1, 2, 1); }); }
  if (simple && !(s[TILES] && s[PART] == 2)) { if (s[GEOM] != 2) odd([&] { f(std::vector<double>{0, 1}); }); if (!req(s, 0)) odd([&] { f(0, 0, 0, 1, 1, 1, 1, 1, 1); }); } }
// all states of options reachable by histories over `ops`, meshes made in those chosen by `make`
static void explore(std::vector<Op> const& ops, St const& start, St const& def, std::function<bool(St const&)> make, int depth) {
  struct Nd { std::vector<int> h; St s; }; std::deque<Nd> q; std::set<St> seen; q.push_back({{}, start}); seen.insert(start); vk::states();
  while (!q.empty() && !vk::failed()) { Nd nd = q.front(); q.pop_front(); vk::beat();
    for (size_t oi = 0; oi < ops.size(); oi++) { Jali::MeshFactory f(MPI_COMM_WORLD); std::string cx; auto run = [&](Op const& o) { bool th = false; try { o.go(f); } catch (Errors::Message const&) { th = true; } cx += o.name + "; "; return th; };
      for (int p : nd.h) run(ops[p]); bool th = run(ops[oi]); vk::set_current(cx); St s = nd.s; ops[oi].model(s); vk::transitions(); vk::traces();
      vk::ok(th == ops[oi].throws, th ? "setting an option failed" : "an unavailable framework was accepted", cx); if (!same(report(f, s, def), s, cx) || vk::failed()) return;
      if (seen.insert(s).second) { vk::states(); if (make(s)) { creations(f, s, cx); if (!vk::failed()) same(report(f, s, def), s, cx + "after making meshes"); if (vk::failed()) return; } if ((int)nd.h.size() + 1 < depth) { auto h = nd.h; h.push_back(oi); q.push_back({h, s}); } } } } }
VK_CHECK("C27", "model_checking", "breadth-first search over states of the options of the factory under every setter with two or three values, including and excluding each entity kind and lists, unavailable frameworks, reset and mesh creation; the numeric options also at every value up to 300 and large ones; every transition is replayed from its whole history on a real factory and every reported option is compared; in the reached states (all of them, or those within the stated depth) meshes are made by every creation call and compared with the request (with Mesh_simple, and with a stand-in for the external framework that remembers what it is given); a case is an alphabet of operations") {
  std::string V =
#ifdef VARIANT_MSTK
  "mstk stand-in: ";
#else
  "as built: ";
#endif
  for (int d = 1; d < 4; d++) if (!gms[d]) gms[d] = new JaliGeometry::GeometricModel(d, std::vector<JaliGeometry::RegionPtr>());
  St def = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}; { Jali::MeshFactory f(MPI_COMM_WORLD); def = report(f, def, def); }
  auto pick = [&](std::vector<Op> const& all, std::vector<std::string> const& pre) { std::vector<Op> v; for (auto& o : all) for (auto& p : pre) if (o.name.substr(0, p.size()) == p) { v.push_back(o); break; } return v; };
  auto A0 = alphabet(def, 0), A1 = alphabet(def, 1);
  vk::run(V + "defaults", [=] { Jali::MeshFactory f(MPI_COMM_WORLD), g(MPI_COMM_WORLD); St d = report(f, def, def); same(d, def, "second factory"); for (int i = EDGE; i <= CORNER; i++) vk::eq(d[i], 0, "entities included by default"); vk::eq(d[GMOD], 0, "geometric model by default"); vk::eq(d[TILES], 0, "tiles by default"); vk::eq(d[TGHOST], 0, "tile ghost layers by default"); vk::eq(f.num_ghost_layers_distmesh(), 1, "ghost layers by default"); vk::eq(d[BGHOST], 0, "boundary ghosts by default"); vk::eq(d[GEOM], 0, "geometry by default"); (void)g; });
  for (int first = 0; first < (int)A1.size(); first++) { auto& o = A1[first]; (void)o; int fi = first; vk::run(V + "all options, histories of " + (vk::thorough ? "4" : "3") + " starting with " + A1[first].name, [=] {
    // histories, not states: every sequence of operations
    std::vector<int> h = {fi}; std::function<void()> rec = [&] { Jali::MeshFactory f(MPI_COMM_WORLD); St s = def; std::string cx; vk::beat(); for (int i : h) { bool th = false; try { A1[i].go(f); } catch (Errors::Message const&) { th = true; } A1[i].model(s); cx += A1[i].name + "; "; vk::ok(th == A1[i].throws, th ? "setting an option failed" : "an unavailable framework was accepted", cx); } vk::transitions(); vk::traces(); if (!same(report(f, s, def), s, cx) || vk::failed()) return; if (h.size() < (vk::thorough ? 4u : 3u)) for (int i = 0; i < (int)A1.size() && !vk::failed(); i++) { h.push_back(i); rec(); h.pop_back(); } };
    rec(); }); }
  vk::run(V + "every value of the numeric options", [=] { Jali::MeshFactory f(MPI_COMM_WORLD); std::vector<int> vs; for (int i = 0; i <= 300; i++) vs.push_back(i); for (int i : {511, 512, 1000, 32767, 32768, 65535, 65536, 70000, 2147483647}) vs.push_back(i);
    for (int i : vs) for (int k = 0; k < 3; k++) { std::string cx = std::string(k == 0 ? "tiles " : k == 1 ? "ghost layers of tiles " : "ghost layers ") + std::to_string(i); int j = (i * 7 + 3) % 11; f.num_tiles(k == 0 ? i : j); f.num_ghost_layers_tile(k == 1 ? i : j); f.num_ghost_layers_distmesh(k == 2 ? i : j); vk::transitions(); vk::states();
      vk::eq((int)f.num_tiles(), k == 0 ? i : j, "tiles", cx); vk::eq((int)f.num_ghost_layers_tile(), k == 1 ? i : j, "ghost layers of tiles", cx); vk::eq((int)f.num_ghost_layers_distmesh(), k == 2 ? i : j, "ghost layers", cx); if (vk::failed()) return; }
    f.reset_options(); same(report(f, def, def), def, "reset"); });
  auto all = [](St const&) { return true; }; auto none = [](St const&) { return false; };
  vk::run(V + "all states of two values per option", [=] { explore(A0, def, def, none, 99); });
  std::vector<std::string> base = {"framework MSTK", "framework Simple", "reset"}; auto with = [&](std::vector<std::string> x) { x.insert(x.end(), base.begin(), base.end()); return x; };
  vk::run(V + "meshes: entities and geometry", [=] { explore(pick(A1, with({"include", "exclude", "geometry"})), def, def, all, 99); });
  vk::run(V + "meshes: tiles and partitioner", [=] { explore(pick(A1, with({"tiles", "tile ghost", "partitioner", "include wedges", "exclude wedges"})), def, def, all, 99); });
  vk::run(V + "meshes: models and parallel options", [=] { explore(pick(A1, with({"geometric model", "ghost layers", "boundary ghosts", "contiguous", "geometry"})), def, def, all, 99); });
  vk::run(V + "meshes: two values per option", [=] { explore(A0, def, def, all, vk::thorough ? 6 : 4); });
}
