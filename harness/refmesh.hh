// Reference meshes: an independent description of a mesh (Ref), families of
// such descriptions, and a Jali::Mesh implementation (RefMesh) that hands the
// description to the library code under test.
#ifndef REFMESH_HH
#define REFMESH_HH
#include <mpi.h>
#include "Mesh.hh"
#include "MeshSet.hh"
#include "MeshTile.hh"
#include "Geometry.hh"
#include "Point.hh"
#include "GeometricModel.hh"
#include "LabeledSetRegion.hh"
#include "BoxRegion.hh"
#include "PlaneRegion.hh"
#include "PointRegion.hh"
#include "PolygonRegion.hh"
#include "LogicalRegion.hh"
#include "errors.hh"
#include "exceptions.hh"
#include "vk.hh"

namespace ref {
using Jali::Entity_ID;
using Jali::Entity_ID_List;
using Jali::Entity_kind;
using Jali::Entity_type;
using Jali::Cell_type;
using Jali::dir_t;
using JaliGeometry::Point;
typedef std::vector<int> VI;
typedef std::array<double, 3> V3;

inline V3 operator+(V3 a, V3 b) { return V3{{a[0]+b[0], a[1]+b[1], a[2]+b[2]}}; }
inline V3 operator-(V3 a, V3 b) { return V3{{a[0]-b[0], a[1]-b[1], a[2]-b[2]}}; }
inline V3 operator*(double s, V3 a) { return V3{{s*a[0], s*a[1], s*a[2]}}; }
inline V3 cross(V3 a, V3 b) { return V3{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
inline double dot(V3 a, V3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }
inline Point pt(V3 a, int sd) { Point p(sd); for (int i = 0; i < sd; i++) p[i] = a[i]; return p; }
inline V3 v3(Point const& p) { V3 a = {{0, 0, 0}}; for (int i = 0; i < p.dim() && i < 3; i++) a[i] = p[i]; return a; }

// What the user draws: cells by their nodes (1D, 2D) or outward faces (3D)
struct Desc {
  std::string name;
  int md, sd;
  std::vector<V3> X;
  struct C { VI nodes; std::vector<VI> faces; };
  std::vector<C> cells;
};

struct Opt {
  VI ghost;                // per cell: 1 = ghost of another rank (empty: none)
  bool shared_owned;       // entities between owned and ghost cells are owned
  bool bghost;             // add boundary ghosts
  int flip;                // bit pattern: natural direction of faces/edges flipped
  Opt() : shared_owned(true), bghost(false), flip(0) {}
  std::string str() const { return "gh" + vk::str(ghost) + (shared_owned ? "s" : "") + (bghost ? "b" : "") + "f" + std::to_string(flip); }
};

// fully elaborated reference topology, ids as given to the library
struct Ref {
  std::string name;
  int md, sd;
  std::vector<V3> X;
  std::vector<Entity_type> ctype, ftype, etype, ntype;
  std::vector<VI> cn, cf, cfd, ce, ced, fn, fc, fe, fed;
  std::vector<std::array<int, 2>> en;
  std::vector<VI> src;     // src[c] = {index of the cell in Desc}
  int nc() const { return cn.size(); }
  int nf() const { return fn.size(); }
  int ne() const { return en.size(); }
  int nn() const { return X.size(); }
  int nreal() const { int n = 0; for (auto t : ctype) if (t != Entity_type::BOUNDARY_GHOST) n++; return n; }
  std::vector<VI> nc_() const { std::vector<VI> r(nn()); for (int c = 0; c < nc(); c++) for (int n : cn[c]) r[n].push_back(c); return r; }
  std::vector<VI> nf_() const { std::vector<VI> r(nn()); for (int f = 0; f < nf(); f++) for (int n : fn[f]) r[n].push_back(f); return r; }
};

inline bool flipped(int flip, int k) { return flip == 0 ? false : flip == 1 ? true : flip == 2 ? (k % 2) : ((k * 7 + k / 3) % 3 == 0); }

inline Ref elaborate(Desc const& d, Opt const& o) {
  Ref r; r.name = d.name + "/" + o.str(); r.md = d.md; r.sd = d.sd;
  int nc0 = d.cells.size();
  VI order;
  for (int pass = 0; pass < 2; pass++)
    for (int c = 0; c < nc0; c++) { int g = c < (int)o.ghost.size() ? o.ghost[c] : 0; if (g == pass) order.push_back(c); }
  auto isg = [&](int c) { return c < (int)o.ghost.size() && o.ghost[c]; };
  // raw faces/edges in order of first appearance over `order`
  std::map<VI, int> fmap; std::map<std::pair<int, int>, int> emap;
  std::vector<VI> fn; std::vector<std::array<int, 2>> en;
  std::vector<VI> cf, cfd, ce, fe, fed; std::vector<VI> cn;
  std::vector<int> town;
  auto edge = [&](int a, int b) {
    auto k = std::make_pair(std::min(a, b), std::max(a, b));
    auto it = emap.find(k);
    if (it == emap.end()) { int id = en.size(); emap[k] = id; if (flipped(o.flip, id)) std::swap(a, b); en.push_back({{a, b}}); return id; }
    return it->second;
  };
  for (int c : order) {
    auto const& C = d.cells[c];
    cn.push_back(C.nodes); cf.push_back(VI()); cfd.push_back(VI()); ce.push_back(VI());
    if (d.md == 1) {
      for (int i = 0; i < 2; i++) { cf.back().push_back(C.nodes[i]); cfd.back().push_back(i ? 1 : -1); ce.back().push_back(C.nodes[i]); }
    } else if (d.md == 2) {
      int n = C.nodes.size();
      for (int i = 0; i < n; i++) {
        int a = C.nodes[i], b = C.nodes[(i + 1) % n];
        VI k = {std::min(a, b), std::max(a, b)};
        auto it = fmap.find(k); int f;
        if (it == fmap.end()) {
          f = fn.size(); fmap[k] = f;
          if (flipped(o.flip, f)) fn.push_back({b, a}); else fn.push_back({a, b});
        } else f = it->second;
        cf.back().push_back(f); cfd.back().push_back(fn[f][0] == a ? 1 : -1);
        ce.back().push_back(f);
      }
    } else {
      for (auto const& face : C.faces) {
        VI k = vk::sorted(face); auto it = fmap.find(k); int f;
        int m = face.size();
        if (it == fmap.end()) {
          f = fn.size(); fmap[k] = f; VI g = face; int dir = 1;
          if (flipped(o.flip, f)) { std::reverse(g.begin(), g.end()); dir = -1; }
          fn.push_back(g); cfd.back().push_back(dir);
          fe.push_back(VI()); fed.push_back(VI());
          for (int i = 0; i < m; i++) { int a = g[i], b = g[(i + 1) % m]; int e = edge(a, b); fe[f].push_back(e); fed[f].push_back(en[e][0] == a ? 1 : -1); }
        } else {
          f = it->second;
          // same cyclic orientation?
          int i0 = std::find(fn[f].begin(), fn[f].end(), face[0]) - fn[f].begin();
          cfd.back().push_back(fn[f][(i0 + 1) % m] == face[1] ? 1 : -1);
        }
        cf.back().push_back(f);
        for (int e : fe[f]) if (std::find(ce.back().begin(), ce.back().end(), e) == ce.back().end()) ce.back().push_back(e);
      }
    }
  }
  if (d.md == 1) for (size_t i = 0; i < d.X.size(); i++) { fn.push_back({(int)i}); en.push_back({{(int)i, (int)i}}); }
  if (d.md == 2) for (size_t f = 0; f < fn.size(); f++) en.push_back({{fn[f][0], fn[f][1]}});
  if (d.md < 3) { for (size_t f = 0; f < fn.size(); f++) { fe.push_back({(int)f}); fed.push_back({1}); } }
  int nf = fn.size(), ne = en.size(), nn = d.X.size();
  // types of lower entities
  auto types = [&](int n, std::vector<VI> const& of) {
    VI ow(n, 0), gh(n, 0); std::vector<Entity_type> t(n);
    for (size_t c = 0; c < of.size(); c++) for (int i : of[c]) (isg(order[c]) ? gh : ow)[i] = 1;
    for (int i = 0; i < n; i++) t[i] = (gh[i] && (!ow[i] || !o.shared_owned)) ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED;
    return t;
  };
  auto nt = types(nn, cn), ft = types(nf, cf), et = types(ne, ce);
  // renumber: owned first
  auto perm = [&](std::vector<Entity_type> const& t) { VI p(t.size()); int k = 0; for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < t.size(); i++) if ((t[i] == Entity_type::PARALLEL_GHOST) == (pass == 1)) p[i] = k++; return p; };
  VI pn = perm(nt), pf = perm(ft), pe = perm(et);
  r.X.resize(nn); r.ntype.resize(nn); r.ftype.resize(nf); r.etype.resize(ne); r.fn.resize(nf); r.fe.resize(nf); r.fed.resize(nf); r.en.resize(ne); r.fc.resize(nf);
  for (int i = 0; i < nn; i++) { r.X[pn[i]] = d.X[i]; r.ntype[pn[i]] = nt[i]; }
  for (int i = 0; i < nf; i++) { VI a; for (int x : fn[i]) a.push_back(pn[x]); r.fn[pf[i]] = a; r.ftype[pf[i]] = ft[i]; VI b; for (int x : fe[i]) b.push_back(pe[x]); r.fe[pf[i]] = b; r.fed[pf[i]] = fed[i]; }
  for (int i = 0; i < ne; i++) { r.en[pe[i]] = {{pn[en[i][0]], pn[en[i][1]]}}; r.etype[pe[i]] = et[i]; }
  for (size_t c = 0; c < order.size(); c++) {
    r.ctype.push_back(isg(order[c]) ? Entity_type::PARALLEL_GHOST : Entity_type::PARALLEL_OWNED);
    VI a, b, e; for (int x : cn[c]) a.push_back(pn[x]); for (int x : cf[c]) b.push_back(pf[x]); for (int x : ce[c]) e.push_back(pe[x]);
    r.cn.push_back(a); r.cf.push_back(b); r.cfd.push_back(cfd[c]); r.ce.push_back(e); r.src.push_back({order[c]});
    for (int f : b) r.fc[f].push_back(c);
  }
  if (o.bghost && d.md > 1) {
    for (int f = 0; f < nf; f++) if (r.fc[f].size() == 1 && r.ctype[r.fc[f][0]] == Entity_type::PARALLEL_OWNED) {
      int c0 = r.fc[f][0], k = std::find(r.cf[c0].begin(), r.cf[c0].end(), f) - r.cf[c0].begin();
      int c = r.nc();
      r.ctype.push_back(Entity_type::BOUNDARY_GHOST);
      int dir = -r.cfd[c0][k];
      VI nodes = r.fn[f];
      if (d.md == 2 && dir == -1) std::reverse(nodes.begin(), nodes.end());
      r.cn.push_back(nodes); r.cf.push_back({f}); r.cfd.push_back({dir}); r.ce.push_back(r.fe[f]); r.src.push_back({-1});
      r.fc[f].push_back(c);
    }
  }
  for (int c = 0; c < r.nc(); c++) {
    VI dd; if (d.md == 2) for (size_t i = 0; i < r.ce[c].size(); i++) dd.push_back(r.cfd[c][i]);
    r.ced.push_back(dd);
  }
  return r;
}

// ---------------------------------------------------------------- families
inline Desc chain(std::vector<double> const& x) {
  Desc d; d.name = "chain" + std::to_string(x.size() - 1); d.md = d.sd = 1;
  for (double v : x) d.X.push_back(V3{{v, 0, 0}});
  for (size_t i = 0; i + 1 < x.size(); i++) { Desc::C c; c.nodes = {(int)i, (int)i + 1}; d.cells.push_back(c); }
  return d;
}
inline Desc quads(int nx, int ny) {
  Desc d; d.name = "quads" + std::to_string(nx) + "x" + std::to_string(ny); d.md = d.sd = 2;
  for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) d.X.push_back(V3{{(double)i, (double)j, 0}});
  for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { Desc::C c; int a = j * (nx + 1) + i; c.nodes = {a, a + 1, a + nx + 2, a + nx + 1}; d.cells.push_back(c); }
  return d;
}
inline Desc poly2(std::string name, std::vector<V3> X, std::vector<VI> cells) {
  Desc d; d.name = name; d.md = d.sd = 2; d.X = X;
  for (auto& c : cells) { Desc::C k; k.nodes = c; d.cells.push_back(k); }
  return d;
}
inline V3 P(double x, double y = 0, double z = 0) { return V3{{x, y, z}}; }
// the same mesh with cells, nodes, faces and the start of every list in another order
inline Desc renumbered(Desc d, int k = 1) {
  auto perm = [&](int n, int o) { int s = n / 2 + k; auto g = [](int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a; }; if (s < 1) s = 1; while (g(s, n) != 1) s++; VI p(n); for (int i = 0; i < n; i++) p[i] = (int)(((long)i * s + o) % n); return p; };
  auto rot = [](VI a, int r) { if (a.size()) std::rotate(a.begin(), a.begin() + r % a.size(), a.end()); return a; };
  VI pn = perm(d.X.size(), k), pc = perm(d.cells.size(), d.cells.size() / 2); Desc e = d; e.name += "~" + std::to_string(k);
  for (size_t i = 0; i < d.X.size(); i++) e.X[pn[i]] = d.X[i];
  for (size_t c = 0; c < d.cells.size(); c++) { Desc::C q = d.cells[c]; for (int& n : q.nodes) n = pn[n]; if (d.md == 2) q.nodes = rot(q.nodes, c + k);
    for (auto& f : q.faces) { for (int& n : f) n = pn[n]; f = rot(f, c + k + 1); } if (q.faces.size()) { std::rotate(q.faces.begin(), q.faces.begin() + (2 * c + k) % q.faces.size(), q.faces.end()); if ((c + k) % 2) std::reverse(q.faces.begin(), q.faces.end()); }
    e.cells[pc[c]] = q; }
  return e;
}
inline void addrenumbered(std::vector<Desc>& v, std::vector<std::string> const& names) { std::vector<Desc> w; for (auto& d : v) for (size_t i = 0; i < names.size(); i++) if (d.name == names[i]) w.push_back(renumbered(d, 1 + (int)i % 2)); v.insert(v.end(), w.begin(), w.end()); }
inline std::vector<Desc> family2d() {
  std::vector<Desc> v;
  v.push_back(poly2("tri", {P(0,0), P(2,0), P(0,1)}, {{0,1,2}}));
  v.push_back(poly2("tri2", {P(0,0), P(2,0), P(2,2), P(0,2)}, {{0,1,2}, {0,2,3}}));
  v.push_back(poly2("fan4", {P(0,0), P(2,0), P(2,2), P(0,2), P(1,1)}, {{0,1,4}, {1,2,4}, {2,3,4}, {3,0,4}}));
  v.push_back(quads(1, 1)); v.push_back(quads(2, 1)); v.push_back(quads(2, 2)); v.push_back(quads(3, 2));
  v.push_back(poly2("mixed", {P(0,0), P(2,0), P(4,0), P(4,2), P(2,2), P(0,2), P(3,3), P(1,3), P(2,4)},
                    {{0,1,4,5}, {1,2,3,4}, {4,3,6}, {5,4,7}, {7,4,6,8}}));
  // one coarse cell next to two fine ones: a pentagon with a straight angle
  v.push_back(poly2("hanging", {P(0,0), P(2,0), P(2,1), P(2,2), P(0,2), P(3,0), P(3,1), P(3,2)},
                    {{0,1,2,3,4}, {1,5,6,2}, {2,6,7,3}}));
  v.push_back(poly2("hex", {P(1,0), P(2,0), P(3,1), P(2,2), P(1,2), P(0,1), P(3,-1), P(4,0)},
                    {{0,1,2,3,4,5}, {1,6,7,2}}));
  // an L shaped (non convex, star shaped) cell around a square
  v.push_back(poly2("ell", {P(0,0), P(3,0), P(3,2), P(2,2), P(2,3), P(0,3), P(3,3)},
                    {{0,1,2,3,4,5}, {3,2,6,4}}));
  // two cells that share two faces
  v.push_back(poly2("twoface", {P(0,0), P(2,1), P(4,0), P(2,4), P(2,-2)},
                    {{0,1,2,3}, {0,4,2,1}}));
  addrenumbered(v, {"mixed", "quads3x2", "ell"});
  return v;
}
inline Desc extrude(Desc const& b, int layers, double dz = 1.0) {
  Desc d; d.name = b.name + "^" + std::to_string(layers); d.md = d.sd = 3;
  int n = b.X.size();
  for (int k = 0; k <= layers; k++) for (auto& x : b.X) d.X.push_back(V3{{x[0], x[1], k * dz}});
  for (int k = 0; k < layers; k++) for (auto& c : b.cells) {
    Desc::C q; int m = c.nodes.size(); VI bot, top;
    for (int i = 0; i < m; i++) q.nodes.push_back(c.nodes[i] + k * n);
    for (int i = 0; i < m; i++) q.nodes.push_back(c.nodes[i] + (k + 1) * n);
    for (int i = m - 1; i >= 0; i--) bot.push_back(c.nodes[i] + k * n);
    for (int i = 0; i < m; i++) top.push_back(c.nodes[i] + (k + 1) * n);
    for (int i = 0; i < m; i++) { int a = c.nodes[i], e = c.nodes[(i + 1) % m]; q.faces.push_back({a + k*n, e + k*n, e + (k+1)*n, a + (k+1)*n}); }
    q.faces.push_back(bot); q.faces.push_back(top);
    d.cells.push_back(q);
  }
  return d;
}
inline Desc hexes(int nx, int ny, int nz) { Desc d = extrude(quads(nx, ny), nz); d.name = "hexes" + std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz); return d; }
inline Desc poly3(std::string name, std::vector<V3> X, std::vector<std::vector<VI>> cells) {
  Desc d; d.name = name; d.md = d.sd = 3; d.X = X;
  for (auto& c : cells) { Desc::C k; k.faces = c; for (auto& f : c) for (int n : f) if (std::find(k.nodes.begin(), k.nodes.end(), n) == k.nodes.end()) k.nodes.push_back(n); d.cells.push_back(k); }
  return d;
}
inline std::vector<Desc> family3d() {
  std::vector<Desc> v;
  auto tet = [](int a, int b, int c, int d) { return std::vector<VI>{{a, c, b}, {a, b, d}, {b, c, d}, {a, d, c}}; };  // abc ccw seen from d
  v.push_back(poly3("tet", {P(0,0,0), P(2,0,0), P(0,2,0), P(0,0,2)}, {tet(0,1,2,3)}));
  v.push_back(poly3("tet2", {P(0,0,0), P(2,0,0), P(0,2,0), P(0,0,2), P(2,2,2)}, {tet(0,1,2,3), tet(1,4,2,3)}));
  v.push_back(poly3("pyrhex", {P(0,0,0), P(2,0,0), P(2,2,0), P(0,2,0), P(0,0,2), P(2,0,2), P(2,2,2), P(0,2,2), P(1,1,3)},
    {{{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{3,2,1,0},{4,5,6,7}}, {{7,6,5,4},{4,5,8},{5,6,8},{6,7,8},{7,4,8}}}));
  v.push_back(hexes(1,1,1)); v.push_back(hexes(2,1,1)); v.push_back(hexes(2,2,1)); v.push_back(hexes(2,2,2));
  for (auto& b : family2d()) {
    if (b.name.substr(0, 5) == "quads" || b.name == "fan4" || b.name.find('~') != std::string::npos) continue;
    v.push_back(extrude(b, b.cells.size() > 3 ? 1 : 2));
  }
  addrenumbered(v, {"pyrhex", "hexes2x2x1", "tri2^2"});
  return v;
}
inline std::vector<Desc> familysurf() {
  std::vector<Desc> v;
  { Desc d = quads(2, 1); d.name = "bent"; d.sd = 3; for (auto& x : d.X) if (x[0] == 2) { x[0] = 1; x[2] = 1; } v.push_back(d); }
  { Desc d; d.name = "cube"; d.md = 2; d.sd = 3;
    d.X = {P(1,1,1), P(3,1,1), P(3,3,1), P(1,3,1), P(1,1,3), P(3,1,3), P(3,3,3), P(1,3,3)};
    for (VI c : std::vector<VI>{{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{3,2,1,0},{4,5,6,7}}) { Desc::C k; k.nodes = c; d.cells.push_back(k); }
    v.push_back(d); }
  { Desc d = poly2("mixsurf", {P(0,0,5), P(2,0,5), P(4,0,7), P(4,2,7), P(2,2,5), P(0,2,5), P(2,4,9)}, {{0,1,4,5}, {1,2,3,4}, {5,4,6}}); d.sd = 3; v.push_back(d); }
  addrenumbered(v, {"mixsurf"});
  return v;
}

// meshes with many cells or with entities of many neighbours: node and edge of
// 20 cells, cells of 12 and 14 faces, faces of 12 edges, corners of 20 wedges
inline std::vector<Desc> familybig(int md, bool surf = false) {
  std::vector<Desc> v; double const pi = std::acos(-1.0);
  auto ring = [&](int n, double r, double z, double t0) { std::vector<V3> x; for (int i = 0; i < n; i++) x.push_back(P(r * std::cos(2 * pi * i / n + t0), r * std::sin(2 * pi * i / n + t0), z)); return x; };
  Desc fan, wheel, cone;
  { int n = 20; auto X = ring(n, 3, 0, 0.1); std::vector<VI> c; for (int i = 0; i < n; i++) c.push_back({i, (i + 1) % n, n}); X.push_back(P(0.2, 0.1)); fan = poly2("fan20", X, c);
    cone = fan; cone.name = "cone20"; cone.sd = 3; cone.X[n][2] = 2; }
  { int n = 12; auto X = ring(n, 2, 0, 0.05), Y = ring(n, 3.5, 0, 0.05); std::vector<VI> c; VI in; for (int i = 0; i < n; i++) in.push_back(i); c.push_back(in); for (int i = 0; i < n; i++) c.push_back({i, n + i, n + (i + 1) % n, (i + 1) % n}); X.insert(X.end(), Y.begin(), Y.end()); wheel = poly2("wheel12", X, c); }
  if (surf) { v.push_back(cone); Desc d = quads(7, 6); d.name = "bent7x6"; d.sd = 3; for (auto& x : d.X) if (x[0] > 3) { double t = x[0] - 3; x[0] = 3 + 0.6 * t; x[2] = 0.8 * t; } v.push_back(d); return v; }
  if (md == 1) { std::vector<double> x; for (int i = 0; i <= 70; i++) x.push_back(i + 0.25 * (i % 3)); v.push_back(chain(x)); }
  if (md == 2) { v.push_back(fan); v.push_back(wheel); v.push_back(quads(7, 6)); v.push_back(quads(40, 1)); }
  if (md == 3) { v.push_back(extrude(fan, 1)); v.push_back(extrude(wheel, 2)); v.push_back(hexes(5, 4, 3));
    // two pyramids of ten sides on a common base
    int n = 10; auto X = ring(n, 2, 0, 0.1); X.push_back(P(0.1, 0.2, 2)); X.push_back(P(-0.1, 0.1, -1.5)); VI up, dn; for (int i = 0; i < n; i++) { up.push_back(i); dn.push_back(n - 1 - i); }
    std::vector<VI> a = {dn}, b = {up}; for (int i = 0; i < n; i++) { a.push_back({i, (i + 1) % n, n}); b.push_back({(i + 1) % n, i, n + 1}); } v.push_back(poly3("bipyr10", X, {a, b})); }
  addrenumbered(v, {"quads7x6", "hexes5x4x3"});
  return v;
}
inline std::vector<Desc> allbig() { std::vector<Desc> v; for (int md = 2; md <= 3; md++) { auto b = familybig(md); v.insert(v.end(), b.begin(), b.end()); } auto s = familybig(2, true); v.insert(v.end(), s.begin(), s.end()); return v; }
// meshes with more than 65536 edges and wedges, 32768 cells
struct Giant { Desc d; Opt o; };
inline std::vector<Giant> giants() { std::vector<Giant> v; { Giant g; g.d = quads(190, 180); g.o.flip = 3; v.push_back(g); } { Giant g; g.d = quads(190, 180); g.o.flip = 2; g.o.bghost = true; for (int i = 0; i < 190 * 180; i++) g.o.ghost.push_back(i % 190 > 170 || i % 1001 == 7); v.push_back(g); } { Giant g; g.d = hexes(12, 12, 12); g.o.flip = 3; for (int i = 0; i < 1728; i++) g.o.ghost.push_back(i % 12 == 11); v.push_back(g); } return v; }
struct Aff { std::string name; double a[3][3]; double b[3]; };
inline V3 apply(Aff const& t, V3 x) { V3 r; for (int i = 0; i < 3; i++) { r[i] = t.b[i]; for (int j = 0; j < 3; j++) r[i] += t.a[i][j] * x[j]; } return r; }
inline std::vector<Aff> affines(int md, int sd) {
  std::vector<Aff> v;
  v.push_back(Aff{"id", {{1,0,0},{0,1,0},{0,0,1}}, {0,0,0}});
  if (sd == 1) { v.push_back(Aff{"sc", {{0.5,0,0},{0,1,0},{0,0,1}}, {2,0,0}}); return v; }
  if (sd == 2) {
    v.push_back(Aff{"shear", {{2,0.5,0},{0.25,1,0},{0,0,1}}, {-3,5,0}});
    v.push_back(Aff{"rot", {{0,-1,0},{1,0,0},{0,0,1}}, {-1,-2,0}});
    v.push_back(Aff{"far", {{1e-3,0,0},{0,1e-3,0},{0,0,1}}, {0.5,-0.25,0}});
    return v;
  }
  v.push_back(Aff{"shear", {{2,0.5,0.25},{0.25,1,0},{0,-0.5,0.5}}, {-3,5,1}});
  v.push_back(Aff{"rot", {{0,0,1},{1,0,0},{0,1,0}}, {-1,-2,4}});
  v.push_back(Aff{"small", {{1e-3,0,0},{0,1e-3,0},{0,0,1e-3}}, {0.5,-0.25,0}});
  return v;
}
// very small, very large, away from the origin
inline std::vector<Aff> extremes(int md, int sd) {
  std::vector<Aff> v; if (sd == 1) { v.push_back(Aff{"tiny", {{2e-12,0,0},{0,1,0},{0,0,1}}, {0,0,0}}); v.push_back(Aff{"huge", {{3e5,0,0},{0,1,0},{0,0,1}}, {-1e5,0,0}}); v.push_back(Aff{"away", {{0.3,0,0},{0,1,0},{0,0,1}}, {1000,0,0}}); return v; }
  double z = sd == 3 ? 1 : 0;
  v.push_back(Aff{"tiny", {{2e-12,0,1e-12*z},{1e-12,2e-12,0},{0,-1e-12*z,2e-12}}, {1e-12,0,0}}); v.push_back(Aff{"huge", {{3e5,1e5,0},{0,3e5,-1e5*z},{1e5*z,0,3e5}}, {-1e6,1e5,2e5*z}}); v.push_back(Aff{"away", {{0.7,0,0.1*z},{0.2,0.7,0},{0,0.1*z,0.9}}, {1000,-300,500*z}});
  return v;
}
inline Desc mapped(Desc d, Aff const& t) { d.name += "@" + t.name; for (auto& x : d.X) x = apply(t, x); return d; }

// ---------------------------------------------------------------- reference geometry
struct PolyG { double area; V3 cen, nrm; };   // nrm is area weighted
inline PolyG polyg(std::vector<V3> const& x) {   // planar polygon, any star/non convex shape
  PolyG g; V3 N = {{0, 0, 0}};
  for (size_t i = 1; i + 1 < x.size(); i++) N = N + 0.5 * cross(x[i] - x[0], x[i + 1] - x[0]);
  g.nrm = N; g.area = len(N); V3 u = (1.0 / g.area) * N; V3 m = {{0, 0, 0}};
  for (size_t i = 1; i + 1 < x.size(); i++) { double a = dot(0.5 * cross(x[i] - x[0], x[i + 1] - x[0]), u); m = m + (a / 3.0) * (x[0] + x[i] + x[i + 1]); }
  g.cen = (1.0 / g.area) * m; return g;
}
struct CellG { double vol; V3 cen; };
inline std::vector<V3> xs(Ref const& r, VI const& ids) { std::vector<V3> o; for (int i : ids) o.push_back(r.X[i]); return o; }
inline CellG cellg(Ref const& r, int c) {
  CellG g;
  if (r.md == 1) { double a = r.X[r.cn[c][0]][0], b = r.X[r.cn[c][1]][0]; g.vol = std::fabs(b - a); g.cen = P(0.5 * (a + b), 0, 0); return g; }
  if (r.md == 2) { PolyG p = polyg(xs(r, r.cn[c])); g.vol = p.area; g.cen = p.cen; return g; }
  V3 o = r.X[r.cn[c][0]], m = {{0, 0, 0}}; double v = 0;
  for (size_t k = 0; k < r.cf[c].size(); k++) {
    auto x = xs(r, r.fn[r.cf[c][k]]);
    for (size_t i = 1; i + 1 < x.size(); i++) {
      double t = r.cfd[c][k] * dot(cross(x[i] - x[0], x[i + 1] - x[0]), x[0] - o) / 6.0;
      v += t; m = m + (t / 4.0) * (o + x[0] + x[i] + x[i + 1]);
    }
  }
  g.vol = v; g.cen = (1.0 / v) * m; return g;
}

// ---------------------------------------------------------------- library side
struct Req { bool f, e, s, w, c; int tiles, tghost; Jali::Partitioner_type part; JaliGeometry::Geom_type gt;
  Req() : f(true), e(false), s(false), w(false), c(false), tiles(0), tghost(0), part(Jali::Partitioner_type::INDEX), gt(JaliGeometry::Geom_type::CARTESIAN) {}
  static Req all() { Req r; r.f = r.e = r.s = r.w = r.c = true; return r; } };

class RefMesh : public Jali::Mesh {
 public:
  Ref R;
  // labelled sets: (label, kind) -> owned ids, ghost ids
  std::map<std::pair<std::string, int>, std::pair<VI, VI>> labels;

  RefMesh(Ref const& r, Req const& q = Req(), JaliGeometry::GeometricModelPtr gm = nullptr, bool bghost = false, MPI_Comm comm = MPI_COMM_WORLD)
      : Jali::Mesh(q.f, q.e, q.s, q.w, q.c, q.tiles, q.tghost, 1, bghost, q.part, q.gt, comm), R(r) {
    set_space_dimension(r.sd); set_manifold_dimension(r.md);
    if (gm) set_geometric_model(gm);
    fill(r.ntype, nodeids_owned_, nodeids_ghost_, nodeids_all_, nullptr);
    if (edges_requested) fill(r.etype, edgeids_owned_, edgeids_ghost_, edgeids_all_, nullptr);
    if (faces_requested) fill(r.ftype, faceids_owned_, faceids_ghost_, faceids_all_, nullptr);
    fill(r.ctype, cellids_owned_, cellids_ghost_, cellids_all_, &cellids_boundary_ghost_);
    cache_extra_variables();
    if (num_tiles_ini_) build_tiles();
  }
  static void fill(std::vector<Entity_type> const& t, VI& o, VI& g, VI& a, VI* b) {
    o.clear(); g.clear(); a.clear();
    for (size_t i = 0; i < t.size(); i++) { if (t[i] == Entity_type::PARALLEL_OWNED) o.push_back(i); else if (t[i] == Entity_type::PARALLEL_GHOST) g.push_back(i); else if (b) b->push_back(i); }
    a = o; a.insert(a.end(), g.begin(), g.end()); if (b) a.insert(a.end(), b->begin(), b->end());
  }
  Cell_type cell_get_type(const Entity_ID c) const {
    int n = R.cn[c].size();
    if (R.md == 2) return n == 3 ? Cell_type::TRI : n == 4 ? Cell_type::QUAD : Cell_type::POLYGON;
    if (R.md == 3) { int f = R.cf[c].size(); return n == 4 ? Cell_type::TET : n == 5 && f == 5 ? Cell_type::PYRAMID : n == 6 && f == 5 ? Cell_type::PRISM : n == 8 && f == 6 ? Cell_type::HEX : Cell_type::POLYHED; }
    return Cell_type::CELLTYPE_UNKNOWN;
  }
  Entity_ID GID(const Entity_ID l, const Entity_kind) const { return l + 100; }
  void cell_get_nodes(const Entity_ID c, Entity_ID_List* n) const { *n = R.cn[c]; }
  void face_get_nodes(const Entity_ID f, Entity_ID_List* n) const { *n = R.fn[f]; }
  bool tm(Entity_type a, Entity_type want) const { return want == Entity_type::ALL || a == want; }
  // upward connectivity of large meshes is kept, that of small ones is worked out at each call
  mutable std::vector<VI> n2c, n2f;
  bool large() const { if (R.nc() < 200) return false; if (n2c.empty()) { n2c.resize(R.nn()); n2f.resize(R.nn()); for (int c = 0; c < R.nc(); c++) for (int n : R.cn[c]) n2c[n].push_back(c); for (int f = 0; f < R.nf(); f++) for (int n : R.fn[f]) n2f[n].push_back(f); } return true; }
  void node_get_cells(const Entity_ID n, const Entity_type t, Entity_ID_List* o) const { o->clear(); if (large()) { for (int c : n2c[n]) if (tm(R.ctype[c], t)) o->push_back(c); return; } for (int c = 0; c < R.nc(); c++) if (tm(R.ctype[c], t)) for (int m : R.cn[c]) if (m == n) { o->push_back(c); break; } }
  void node_get_faces(const Entity_ID n, const Entity_type t, Entity_ID_List* o) const { o->clear(); if (large()) { for (int f : n2f[n]) if (tm(R.ftype[f], t)) o->push_back(f); return; } for (int f = 0; f < R.nf(); f++) if (tm(R.ftype[f], t)) for (int m : R.fn[f]) if (m == n) { o->push_back(f); break; } }
  void node_get_cell_faces(const Entity_ID n, const Entity_ID c, const Entity_type t, Entity_ID_List* o) const { o->clear(); for (int f : R.cf[c]) if (tm(R.ftype[f], t)) for (int m : R.fn[f]) if (m == n) { o->push_back(f); break; } }
  void cell_get_face_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List* o) const { o->clear(); for (int f : R.cf[c]) for (int k : R.fc[f]) if (k != c && tm(R.ctype[k], t)) o->push_back(k); }
  void cell_get_node_adj_cells(const Entity_ID c, const Entity_type t, Entity_ID_List* o) const {
    o->clear();
    if (large()) { std::set<int> s; for (int n : R.cn[c]) for (int k : n2c[n]) if (k != c && tm(R.ctype[k], t)) s.insert(k); o->assign(s.begin(), s.end()); return; }
    for (int k = 0; k < R.nc(); k++) if (k != c && tm(R.ctype[k], t)) { bool s = false; for (int a : R.cn[c]) for (int b : R.cn[k]) if (a == b) s = true; if (s) o->push_back(k); } }
  using Jali::Mesh::node_get_coordinates;
  void node_get_coordinates(const Entity_ID n, Point* p) const { *p = pt(R.X[n], R.sd); }
  void face_get_coordinates(const Entity_ID f, std::vector<Point>* o) const { o->clear(); for (int n : R.fn[f]) o->push_back(pt(R.X[n], R.sd)); }
  void cell_get_coordinates(const Entity_ID c, std::vector<Point>* o) const { o->clear(); for (int n : R.cn[c]) o->push_back(pt(R.X[n], R.sd)); }
  void node_set_coordinates(const Entity_ID n, const Point p) { for (int i = 0; i < R.sd; i++) R.X[n][i] = p[i]; }
  void node_set_coordinates(const Entity_ID n, const double* p) { for (int i = 0; i < R.sd; i++) R.X[n][i] = p[i]; }

  // fields: like the external framework, a name belongs to one kind of entity and one type of value
  struct Field { std::string name; int kind; std::string type; int width; std::vector<double> v; bool bad; };
  std::vector<Field> fields;       // what the mesh holds (and reports)
  std::vector<Field> stored;       // every store_field call
  static std::string typ(int const*, int) { return "INT"; }
  static std::string typ(double const*, int) { return "DOUBLE"; }
  template <size_t N> static std::string typ(std::array<double, N> const*, int sd) { return N == 2 || (N == 3 && sd == 3) ? "VECTOR" : "TENSOR"; }
  static int wid(int const*) { return 1; } static int wid(double const*) { return 1; }
  template <size_t N> static int wid(std::array<double, N> const*) { return N; }
  static double& comp(double& d, int) { return d; } static int& comp(int& d, int) { return d; }
  template <size_t N> static double& comp(std::array<double, N>& a, int j) { return a[j]; }
  static bool fkind(Entity_kind k) { return (int)k >= 0 && (int)k <= (int)Entity_kind::CELL; }
  template <class T> bool getf(std::string const& n, Entity_kind k, T* d) const {
    for (auto& f : fields) if (f.name == n) { if (f.kind != (int)k || f.bad || f.type != typ(d, R.sd) || f.width != wid(d)) continue;
      int w = f.width; for (size_t i = 0; i * w < f.v.size(); i++) for (int j = 0; j < w; j++) comp(d[i], j) = f.v[i * w + j]; return true; }
    return false; }
  template <class T> bool storef(std::string const& n, Entity_kind k, T* d) {
    Field s; s.name = n; s.kind = (int)k; s.type = typ(d, R.sd); s.width = wid(d); s.bad = false;
    int ne = fkind(k) ? num_entities(k, Entity_type::ALL) : 0; for (int i = 0; i < ne; i++) for (int j = 0; j < s.width; j++) s.v.push_back(comp(d[i], j));
    stored.push_back(s); if (!fkind(k)) return false;
    for (auto& f : fields) if (f.name == n) { if (f.kind != s.kind || f.type != s.type || f.width != s.width) return false; f = s; return true; }
    fields.push_back(s); return true; }
  void get_field_info(Entity_kind k, int* num, std::vector<std::string>* n, std::vector<std::string>* t) const { n->clear(); t->clear(); for (auto& f : fields) if (f.kind == (int)k) { n->push_back(f.name); t->push_back(f.type); } *num = n->size(); }
#define FLD(...) bool get_field(std::string n, Entity_kind k, __VA_ARGS__* d) const { return getf(n, k, d); } bool store_field(std::string n, Entity_kind k, __VA_ARGS__* d) { return storef(n, k, d); }
  FLD(int) FLD(double) FLD(std::array<double, 2>) FLD(std::array<double, 3>) FLD(std::array<double, 6>)
#undef FLD

 protected:
  void cell_get_faces_and_dirs_internal(const Entity_ID c, Entity_ID_List* f, std::vector<dir_t>* d, const bool) const { *f = R.cf[c]; if (d) d->assign(R.cfd[c].begin(), R.cfd[c].end()); }
  void face_get_cells_internal(const Entity_ID f, const Entity_type t, Entity_ID_List* o) const { o->clear(); for (int c : R.fc[f]) if (tm(R.ctype[c], t)) o->push_back(c); }
  void face_get_edges_and_dirs_internal(const Entity_ID f, Entity_ID_List* e, std::vector<dir_t>* d, const bool) const { *e = R.fe[f]; if (d) d->assign(R.fed[f].begin(), R.fed[f].end()); }
  void cell_get_edges_internal(const Entity_ID c, Entity_ID_List* e) const { *e = R.ce[c]; }
  void cell_2D_get_edges_and_dirs_internal(const Entity_ID c, Entity_ID_List* e, std::vector<dir_t>* d) const { *e = R.ce[c]; d->assign(R.ced[c].begin(), R.ced[c].end()); }
  void edge_get_nodes_internal(const Entity_ID e, Entity_ID* a, Entity_ID* b) const { *a = R.en[e][0]; *b = R.en[e][1]; }
  void get_labeled_set_entities(const JaliGeometry::LabeledSetRegionPtr rgn, const Entity_kind kind, Entity_ID_List* o, Entity_ID_List* g) const {
    o->clear(); g->clear();
    auto it = labels.find(std::make_pair(rgn->label(), (int)kind));
    if (it != labels.end()) { *o = it->second.first; *g = it->second.second; }
  }
};
inline std::shared_ptr<RefMesh> make(Ref const& r, Req const& q = Req(), JaliGeometry::GeometricModelPtr gm = nullptr) { return std::make_shared<RefMesh>(r, q, gm); }

// bounded family of ghost labellings for a description
inline std::vector<Opt> labellings(int nc, bool all, bool withb) {
  std::vector<Opt> v;
  int lim = nc <= 5 ? (1 << nc) : 0;
  auto push = [&](VI g) { for (int s = 0; s < 2; s++) { if (s && g.empty()) continue; for (int b = 0; b < (withb ? 2 : 1); b++) { Opt o; o.ghost = g; o.shared_owned = !s; o.bghost = b; v.push_back(o); } } };
  push(VI());
  if (lim && all) { for (int m = 1; m < lim; m++) { VI g(nc); bool any = false; for (int i = 0; i < nc; i++) { g[i] = m >> i & 1; if (!g[i]) any = true; } if (any) push(g); } }
  else if (nc > 1) { VI g(nc, 0); g[nc - 1] = 1; push(g); VI h(nc, 0); for (int i = 0; i < nc / 2; i++) h[i] = 1; push(h); VI k(nc, 0); for (int i = 0; i < nc; i += 2) k[i] = 1; push(k); }
  return v;
}
template <class T> T dirty();  // pre-filled output argument
inline VI junk() { return VI{-7, 99999, 3}; }
inline std::vector<dir_t> junkd() { return std::vector<dir_t>{5, 5, 5, 5, 5}; }
inline std::vector<Point> junkp() { return std::vector<Point>(3, Point(7.0, 8.0, 9.0)); }
inline VI as(std::vector<dir_t> const& d) { return VI(d.begin(), d.end()); }
inline bool samep(Point const& p, V3 x, int sd, double scale = 1.0) { if (p.dim() != sd) return false; for (int i = 0; i < sd; i++) if (!vk::near(p[i], x[i], scale)) return false; return true; }
inline std::string ps(Point const& p) { std::ostringstream o; o.precision(17); o << "("; for (int i = 0; i < p.dim() && i < 3; i++) o << (i ? "," : "") << p[i]; o << ")d" << p.dim(); return o.str(); }
inline bool peq(Point const& p, V3 x, int sd, std::string const& what, std::string const& ctx = "", double scale = 1.0) { vk::cmp(); if (samep(p, x, sd, scale)) return true; vk::fail(what, ctx + " got " + ps(p) + " expected " + ps(pt(x, sd))); return false; }
}  // namespace ref
#endif
