// C07: geometry of sides, wedges and corners
#include "tiles.hh"
#include "subgeo.hh"
using namespace ref;
VK_CHECK("C07", "exploration", "one case = one mesh: generated 1D meshes (1-4, thorough 8 cells; Cartesian and spherical; several spacings) and every 2D/3D/surface mesh of the reference family under 7 affine maps x ghost labellings (thorough: all assignments for up to 5 cells) x boundary ghosts x natural-direction patterns; meshes of 1728 and 34200 cells; every side, wedge and corner: volumes (stored and recomputed), natural and positive-order coordinates, facet normals, corner facetizations; compared with exact values from node positions (relative 1e-9)") {
  Exceptions::set_exception_behavior_raise();
  for (int n = 1; n <= (vk::thorough ? 8 : 4); n++) for (int g = 0; g < 4; g++) for (int sp = 0; sp < 3; sp++) vk::run("simple" + vk::str(n) + " " + vk::str(g) + vk::str(sp), [&] {
    std::vector<double> x; x.push_back(g & 2 ? 1.5 : 0.0); for (int i = 1; i <= n; i++) x.push_back(x.back() + (sp == 0 ? 1.0 : sp == 1 ? 0.5 * i : 1.0 / i));
    bool sph = g & 1; Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, true, true, 0, 0, 0, false, Jali::Partitioner_type::INDEX, sph ? JaliGeometry::Geom_type::SPHERICAL : JaliGeometry::Geom_type::CARTESIAN);
    subgeo1(m, x, sph); });
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end());
  for (auto& d : ds) for (auto& t : affines(d.md, d.sd)) for (auto o : labellings(d.cells.size(), vk::thorough, d.sd == d.md)) for (int fl = 0; fl < (vk::thorough ? 4 : 3); fl++) {
    o.flip = fl == 0 ? 0 : fl == 1 ? 2 : fl == 2 ? 3 : 1;
    vk::run(d.name + "@" + t.name + "/" + o.str(), [&] { if (d.cells.size() == 1 && t.name == "id") vk::trivial(); Ref r = elaborate(mapped(d, t), o); auto m = make(r, Req::all()); subgeo(*m, r, true); }); }
  for (auto& d : ds) for (auto& t : extremes(d.md, d.sd)) { Opt o; o.flip = 3; vk::run(d.name + "@" + t.name + "/" + o.str(), [&] { Ref r = elaborate(mapped(d, t), o); auto m = make(r, Req::all()); subgeo(*m, r, true); }); }
  for (int n = 1; n <= (vk::thorough ? 6 : 4); n++) for (int g = 0; g < n; g++) for (int gt = 0; gt < 2; gt++) vk::run("chain" + vk::str(n) + " last ghosts " + vk::str(g) + (gt ? " spherical" : ""), [&] { std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(0.5 + i + 0.1 * i * i); Opt o; o.ghost.assign(n, 0); for (int i = n - g; i < n; i++) o.ghost[i] = 1; Req q = Req::all(); if (gt) q.gt = JaliGeometry::Geom_type::SPHERICAL; auto m = make(elaborate(chain(x), o), q); subgeo1(*m, x, gt); });
  for (auto& d : allbig()) for (auto o : labellings(d.cells.size(), false, false)) { if (!o.shared_owned && !vk::thorough) continue; o.flip = 3;
    vk::run(d.name + "/" + o.str(), [&] { Ref r = elaborate(d, o); auto m = make(r, Req::all()); subgeo(*m, r, true); }); }
  for (auto g : giants()) vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " many entities", [&] { Ref r = elaborate(g.d, g.o); auto m = make(r, Req::all()); subgeo(*m, r, true); });
}
