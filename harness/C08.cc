// C08: entity lists, counts and types for every kind, type and request
#include "refmesh.hh"
#include "Mesh_simple.hh"
using namespace ref;
static Entity_type const OW = Entity_type::PARALLEL_OWNED, GH = Entity_type::PARALLEL_GHOST, BG = Entity_type::BOUNDARY_GHOST, AL = Entity_type::ALL;
typedef std::vector<Entity_type> TV;
template <Entity_type T> static VI lst(Jali::Mesh const& m, int k) { switch (k) { case 0: return m.nodes<T>(); case 1: return m.edges<T>(); case 2: return m.faces<T>(); case 3: return m.sides<T>(); case 4: return m.wedges<T>(); case 5: return m.corners<T>(); default: return m.cells<T>(); } }
template <Entity_type T> static int cnt(Jali::Mesh const& m, int k) { switch (k) { case 0: return m.num_nodes<T>(); case 1: return m.num_edges<T>(); case 2: return m.num_faces<T>(); case 3: return m.num_sides<T>(); case 4: return m.num_wedges<T>(); case 5: return m.num_corners<T>(); default: return m.num_cells<T>(); } }
static VI lstb(Jali::Mesh const& m, int k) { switch (k) { case 3: return m.sides<BG>(); case 4: return m.wedges<BG>(); case 5: return m.corners<BG>(); default: return m.cells<BG>(); } }
static int cntb(Jali::Mesh const& m, int k) { switch (k) { case 3: return m.num_sides<BG>(); case 4: return m.num_wedges<BG>(); case 5: return m.num_corners<BG>(); default: return m.num_cells<BG>(); } }
static Entity_kind const KINDS[7] = {Entity_kind::NODE, Entity_kind::EDGE, Entity_kind::FACE, Entity_kind::SIDE, Entity_kind::WEDGE, Entity_kind::CORNER, Entity_kind::CELL};
static char const* KN[7] = {"nodes", "edges", "faces", "sides", "wedges", "corners", "cells"};
// want[k]: types of all entities of kind k (-1 size: not requested)
static void check(Jali::Mesh const& m, std::vector<TV> const& want, std::vector<bool> const& asked) {
  for (int k = 0; k < 7; k++) { std::string kn = KN[k]; VI o = lst<OW>(m, k), g = lst<GH>(m, k), a = lst<AL>(m, k), b; if (k > 2) b = lstb(m, k);
    vk::eq(cnt<OW>(m, k), (int)o.size(), "number of owned " + kn); vk::eq(cnt<GH>(m, k), (int)g.size(), "number of ghost " + kn); vk::eq(cnt<AL>(m, k), (int)a.size(), "number of all " + kn); if (k > 2) vk::eq(cntb(m, k), (int)b.size(), "number of boundary ghost " + kn);
    vk::eq((int)m.num_entities(KINDS[k], OW), (int)o.size(), "number of owned " + kn + " by kind"); vk::eq((int)m.num_entities(KINDS[k], GH), (int)g.size(), "number of ghost " + kn + " by kind"); vk::eq((int)m.num_entities(KINDS[k], AL), (int)a.size(), "number of all " + kn + " by kind"); vk::eq((int)m.num_entities(KINDS[k], BG), (int)b.size(), "number of boundary ghost " + kn + " by kind");
    if (!asked[k]) { vk::eq(a, VI(), kn + " that were not requested"); vk::eq(o, VI(), kn + " that were not requested"); vk::eq(g, VI(), kn + " that were not requested"); vk::eq(b, VI(), kn + " that were not requested");
      for (int i = 0; i < 3; i++) vk::eq((int)m.entity_get_type(KINDS[k], i), (int)Entity_type::TYPE_UNKNOWN, "type of " + kn + " that were not requested"); continue; }
    VI wa, wo, wg, wb; for (int i = 0; i < (int)want[k].size(); i++) { wa.push_back(i); (want[k][i] == OW ? wo : want[k][i] == GH ? wg : wb).push_back(i); }
    vk::eq(vk::sorted(a), wa, "list of all " + kn); vk::eq(vk::sorted(o), wo, "list of owned " + kn); vk::eq(vk::sorted(g), wg, "list of ghost " + kn); vk::eq(vk::sorted(b), wb, "list of boundary ghost " + kn);
    VI cat = o; cat.insert(cat.end(), g.begin(), g.end()); cat.insert(cat.end(), b.begin(), b.end()); vk::eq(cat, a, "full list of " + kn + " is the owned, ghost and boundary ghost ones");
    for (int i : wa) vk::eq((int)m.entity_get_type(KINDS[k], i), (int)want[k][i], "type of " + kn, vk::str(i)); }
  vk::eq((int)m.entity_get_type(Entity_kind::ANY_KIND, 0), (int)Entity_type::TYPE_UNKNOWN, "type of an entity of no definite kind"); vk::eq((int)m.num_entities(Entity_kind::ANY_KIND, AL), 0, "number of entities of no definite kind");
}
static std::vector<bool> asks(Req q) { if (q.c) q.w = true; if (q.w) q.s = true; if (q.s) q.f = q.e = true; return {true, q.e, q.f, q.s, q.w, q.c, true}; }
// types of subcells, by the cell that owns each (asked from the mesh)
static void sub(Jali::Mesh const& m, Ref const& r, std::vector<TV>& w, std::vector<bool> const& a) {
  int ns = 0, nk = 0; for (int c = 0; c < r.nc(); c++) { int s = 0; if (r.md == 1) s = 2; else for (int f : r.cf[c]) s += r.fe[f].size(); ns += s; nk += r.cn[c].size();
    VI v; if (a[3]) { m.cell_get_sides(c, &v); vk::eq((int)v.size(), s, "sides of a cell"); } if (a[4]) { m.cell_get_wedges(c, &v); vk::eq((int)v.size(), 2 * s, "wedges of a cell"); } if (a[5]) { m.cell_get_corners(c, &v); vk::eq((int)v.size(), (int)r.cn[c].size(), "corners of a cell"); } }
  w[3].assign(ns, AL); w[4].assign(2 * ns, AL); w[5].assign(nk, AL);
  for (int i = 0; a[3] && i < ns; i++) w[3][i] = r.ctype[m.side_get_cell(i)]; for (int i = 0; a[4] && i < 2 * ns; i++) w[4][i] = r.ctype[m.wedge_get_cell(i)]; for (int i = 0; a[5] && i < nk; i++) w[5][i] = r.ctype[m.corner_get_cell(i)];
}
VK_CHECK("C08", "exploration", "one case = one mesh (1D, 2D, 3D, surface family; generated 1D and 3D meshes) x ghost labelling (thorough: every assignment for up to 5 cells; boundary ghosts; entities shared with ghost cells owned or ghost) x one of the 32 combinations of requested kinds; meshes of 1728, 34200 and 70000 cells; every list, every count by both interfaces and the type of every entity, for every kind and parallel type") {
  Exceptions::set_exception_behavior_raise();
  for (int n = 1; n <= (vk::thorough ? 9 : 4); n++) for (int rq = 0; rq < 32; rq++) { Req q; q.f = rq & 1; q.e = rq & 2; q.s = rq & 4; q.w = rq & 8; q.c = rq & 16;
    vk::run("simple1d " + vk::str(n) + " r" + vk::str(rq), [&] { std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(i); Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, q.f, q.e, q.s, q.w, q.c);
      auto T = [](int k) { return TV(k, OW); }; check(m, {T(n + 1), T(n + 1), T(n + 1), T(2 * n), T(4 * n), T(2 * n), T(n)}, asks(q)); }); }
  int M = vk::thorough ? 4 : 3; for (int a = 1; a <= M; a++) for (int b = 1; b <= M; b++) for (int c = 1; c <= M; c++) vk::run("simple3d " + vk::str(a) + vk::str(b) + vk::str(c), [&] { Jali::Mesh_simple m(0., 0., 0., 1., 1., 1., a, b, c, MPI_COMM_WORLD);
    auto T = [](int k) { return TV(k, OW); }; check(m, {T((a + 1) * (b + 1) * (c + 1)), {}, T((a + 1) * b * c + a * (b + 1) * c + a * b * (c + 1)), {}, {}, {}, T(a * b * c)}, asks(Req())); });
  std::vector<Desc> ds = family2d(); auto d3 = family3d(); ds.insert(ds.end(), d3.begin(), d3.end()); auto d4 = familysurf(); ds.insert(ds.end(), d4.begin(), d4.end()); ds.push_back(chain({0, 1, 2, 4}));
  for (auto& d : ds) for (auto o : labellings(d.cells.size(), vk::thorough, d.md > 1 && d.sd == d.md)) for (int fl = 0; fl < (vk::thorough && d.md > 1 ? 2 : 1); fl++) for (int rq = 0; rq < 32; rq++) { Req q; q.f = rq & 1; q.e = rq & 2; q.s = rq & 4; q.w = rq & 8; q.c = rq & 16; if (d.md == 3 && !asks(q)[2]) continue;
    o.flip = fl ? 3 : 0;
    vk::run(d.name + "/" + o.str() + " r" + vk::str(rq), [&] { if (d.cells.size() == 1 && rq == 1) vk::trivial(); Ref r = elaborate(d, o); auto m = make(r, q); auto a = asks(q); std::vector<TV> w = {r.ntype, r.etype, r.ftype, {}, {}, {}, r.ctype}; sub(*m, r, w, a); check(*m, w, a); }); }
  { auto b = allbig(); for (auto& d : b) for (auto o : labellings(d.cells.size(), false, d.sd == d.md)) for (int rq : {1, 3, 7, 15, 31}) { Req q; q.f = rq & 1; q.e = rq & 2; q.s = rq & 4; q.w = rq & 8; q.c = rq & 16; o.flip = 3;
    vk::run(d.name + "/" + o.str() + " r" + vk::str(rq), [&] { Ref r = elaborate(d, o); auto m = make(r, q); auto a = asks(q); std::vector<TV> w = {r.ntype, r.etype, r.ftype, {}, {}, {}, r.ctype}; sub(*m, r, w, a); check(*m, w, a); }); } }
  for (auto g : giants()) vk::run(g.d.name + (g.o.ghost.size() ? " ghosts" : "") + " many entities", [&] { Ref r = elaborate(g.d, g.o); Req q = Req::all(); auto m = make(r, q); auto a = asks(q); std::vector<TV> w = {r.ntype, r.etype, r.ftype, {}, {}, {}, r.ctype}; sub(*m, r, w, a); check(*m, w, a); });
  vk::run("simple1d 70000", [&] { int n = 70000; std::vector<double> x; for (int i = 0; i <= n; i++) x.push_back(i); Jali::Mesh_simple m(x, MPI_COMM_WORLD, (JaliGeometry::GeometricModelPtr) nullptr, true, true, true, true, true); auto T = [](int k) { return TV(k, OW); }; check(m, {T(n + 1), T(n + 1), T(n + 1), T(2 * n), T(4 * n), T(2 * n), T(n)}, asks(Req::all())); });
  vk::run("made with the defaults", [&] { auto T = [](int k) { return TV(k, OW); }; Req q = Req(); q.f = true; q.e = q.s = q.w = q.c = false;
    { Jali::Mesh_simple m(std::vector<double>{0, 1, 3}, MPI_COMM_WORLD); check(m, {T(3), T(0), T(3), T(0), T(0), T(0), T(2)}, asks(q)); vk::eq((int)m.num_tiles(), 0, "tiles made though not requested", ""); vk::ok(m.geometric_model() == nullptr && m.geom_type() == JaliGeometry::Geom_type::CARTESIAN, "geometric model or geometry", ""); }
    { Jali::Mesh_simple m(0, 0, 0, 1, 1, 1, 2, 1, 1, MPI_COMM_WORLD); check(m, {T(12), T(0), T(11), T(0), T(0), T(0), T(2)}, asks(q)); vk::eq((int)m.num_tiles(), 0, "tiles made though not requested", ""); vk::ok(m.geometric_model() == nullptr, "geometric model", ""); } });
}
