// Stand-in for the external mesh framework: same constructors as
// /repo/src/mesh/mesh_mstk/Mesh_MSTK.hh, makes reference meshes, remembers
// what it was given and fails on request on the calling rank.
#ifndef FAKE_MESH_MSTK_HH
#define FAKE_MESH_MSTK_HH
#include "refmesh.hh"
namespace fakemstk {
extern thread_local int fail;          // 0: succeed, 1: throw Errors::Message, 2: throw std::exception, 3: throw std::bad_alloc
extern thread_local int made;          // constructor calls on this rank
struct Args { std::string call; std::vector<double> box; std::vector<int> n; std::string file; std::vector<std::string> sets; int setkind; bool flatten, extrude; void const* inmesh; void const* gm; bool f, e, s, w, c; int tiles, tghost, dghost; bool bghost; Jali::Partitioner_type part; bool contig; JaliGeometry::Geom_type gt; };
inline void maybe() { made++; if (fail == 1) Exceptions::Jali_throw(Errors::Message("simulated failure")); if (fail == 2) throw std::runtime_error("simulated failure"); if (fail == 3) throw std::bad_alloc(); }
inline ref::Ref quad(double x0, double y0, double x1, double y1, int nx, int ny) { maybe(); ref::Desc d = ref::quads(nx, ny); for (auto& p : d.X) { p[0] = x0 + p[0] * (x1 - x0) / nx; p[1] = y0 + p[1] * (y1 - y0) / ny; } return ref::elaborate(d, ref::Opt()); }
inline ref::Ref hex(double x0, double y0, double z0, double x1, double y1, double z1, int nx, int ny, int nz) { maybe(); ref::Desc d = ref::hexes(nx, ny, nz); for (auto& p : d.X) { p[0] = x0 + p[0] * (x1 - x0) / nx; p[1] = y0 + p[1] * (y1 - y0) / ny; p[2] = z0 + p[2] * (z1 - z0) / nz; } return ref::elaborate(d, ref::Opt()); }
inline ref::Ref file(std::string const& n) { return n.find("2d") != std::string::npos ? quad(0, 0, 2, 1, 2, 1) : hex(0, 0, 0, 2, 1, 1, 2, 1, 1); }
inline ref::Req req(bool f, bool e, bool s, bool w, bool c, int t, int tg, Jali::Partitioner_type p, JaliGeometry::Geom_type g) { ref::Req q; q.f = f; q.e = e; q.s = s; q.w = w; q.c = c; q.tiles = t; q.tghost = tg; q.part = p; q.gt = g; return q; }
}
namespace Jali {
class Mesh_MSTK : public ref::RefMesh {
 public:
  fakemstk::Args a;
#define TAIL bool const f = true, bool const e = false, bool const s = false, bool const w = false, bool const c = false, int const tiles = 0, int const tg = 0, int const dg = 1, bool const bg = false, Partitioner_type const part = Partitioner_type::METIS, bool const contig = false
#define GEO JaliGeometry::Geom_type const gt = JaliGeometry::Geom_type::CARTESIAN
#define REC a.f = f; a.e = e; a.s = s; a.w = w; a.c = c; a.tiles = tiles; a.tghost = tg; a.dghost = dg; a.bghost = bg; a.part = part; a.contig = contig; a.setkind = -1; a.flatten = a.extrude = false; a.inmesh = nullptr
  Mesh_MSTK(std::string const fn, MPI_Comm const& comm, JaliGeometry::GeometricModelPtr const& gm = nullptr, TAIL, GEO)
      : RefMesh(fakemstk::file(fn), fakemstk::req(f, e, s, w, c, tiles, tg, part, gt), gm, bg, comm) { a.call = "file"; a.file = fn; a.gm = gm; a.gt = gt; REC; }
  Mesh_MSTK(double const x0, double const y0, double const z0, double const x1, double const y1, double const z1, unsigned int const nx, unsigned int const ny, unsigned int const nz, MPI_Comm const& comm, JaliGeometry::GeometricModelPtr const& gm = nullptr, TAIL)
      : RefMesh(fakemstk::hex(x0, y0, z0, x1, y1, z1, nx, ny, nz), fakemstk::req(f, e, s, w, c, tiles, tg, part, JaliGeometry::Geom_type::CARTESIAN), gm, bg, comm) { a.call = "3d"; a.box = {x0, y0, z0, x1, y1, z1}; a.n = {(int)nx, (int)ny, (int)nz}; a.gm = gm; a.gt = JaliGeometry::Geom_type::CARTESIAN; REC; }
  Mesh_MSTK(double const x0, double const y0, double const x1, double const y1, int const nx, int const ny, MPI_Comm const& comm, JaliGeometry::GeometricModelPtr const& gm = nullptr, TAIL, GEO)
      : RefMesh(fakemstk::quad(x0, y0, x1, y1, nx, ny), fakemstk::req(f, e, s, w, c, tiles, tg, part, gt), gm, bg, comm) { a.call = "2d"; a.box = {x0, y0, x1, y1}; a.n = {nx, ny}; a.gm = gm; a.gt = gt; REC; }
  Mesh_MSTK(Mesh const& in, std::vector<std::string> const& sets, Entity_kind const kind, bool const flatten = false, bool const extrude = false, TAIL, GEO)
      : RefMesh(fakemstk::quad(0, 0, 2, 1, 2, 1), fakemstk::req(f, e, s, w, c, tiles, tg, part, gt), nullptr, bg) { REC; a.call = "extract"; a.inmesh = &in; a.sets = sets; a.setkind = (int)kind; a.flatten = flatten; a.extrude = extrude; a.gm = nullptr; a.gt = gt; }
  Mesh_MSTK(std::shared_ptr<Mesh> const in, std::vector<std::string> const& sets, Entity_kind const kind, bool const flatten = false, bool const extrude = false, TAIL, GEO)
      : Mesh_MSTK(*in, sets, kind, flatten, extrude, f, e, s, w, c, tiles, tg, dg, bg, part, contig, gt) {}
#undef TAIL
#undef GEO
#undef REC
};
}
#endif
