// C16: sets built from regions against direct geometric criteria.
#include "refmesh.hh"
using namespace ref;
using namespace JaliGeometry;
typedef std::shared_ptr<Jali::MeshSet> SetP;
typedef std::function<bool(V3)> In;
struct Ctx { Ref r; std::shared_ptr<RefMesh> m; GeometricModel* gm; int id; std::string pre; };
static std::vector<Entity_type> const& types(Ref const& r, Entity_kind k) { return k == Entity_kind::CELL ? r.ctype : k == Entity_kind::FACE ? r.ftype : r.ntype; }
static bool checkset(Ctx& x, SetP s, Entity_kind k, std::set<int> const& want, bool rev, std::string const& name, std::string const& cx) {
  if (!vk::ok(s != nullptr, "no set", cx)) return false;
  auto const& t = types(x.r, k); VI o, g; for (int e : want) { if (t[e] == Entity_type::PARALLEL_OWNED) o.push_back(e); if (t[e] == Entity_type::PARALLEL_GHOST) g.push_back(e); }
  VI a = o; a.insert(a.end(), g.begin(), g.end());
  vk::ok(s->name() == name && s->kind() == k && &s->mesh() == x.m.get(), "name, kind or mesh of set", cx + " name " + s->name());
  vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_OWNED>()), vk::sorted(o), "owned entities", cx);
  vk::eq(vk::sorted(s->entities<Entity_type::PARALLEL_GHOST>()), vk::sorted(g), "ghost entities", cx);
  auto const& L = s->entities<Entity_type::ALL>(); vk::eq(vk::sorted(L), vk::sorted(a), "entities", cx);
  if (rev) for (size_t i = 0; i < L.size(); i++) vk::eq((int)s->index_in_set(L[i]), (int)i, "position in set", cx);
  else if (L.size()) vk::eq((int)s->index_in_set(L[0]), -1, "reverse map not asked for", cx);
  return !vk::failed();
}
static Ctx mkctx(Ref const& r) { Ctx x; x.r = r; x.gm = new GeometricModel(r.sd); x.id = 1; x.m = make(r, Req(), x.gm); return x; }
static V3 cenf(Ref const& r, int f) { if (r.md == 3) return polyg(xs(r, r.fn[f])).cen; V3 a = {{0, 0, 0}}; for (int n : r.fn[f]) a = a + (1.0 / r.fn[f].size()) * r.X[n]; return a; }
static std::set<int> allnodes(Ref const& r, std::vector<VI> const& l, In in) { std::set<int> s; for (size_t e = 0; e < l.size(); e++) { bool a = true; for (int n : l[e]) if (!in(r.X[n])) a = false; if (a) s.insert(e); } return s; }
static std::set<int> nodes(Ref const& r, In in) { std::set<int> s; for (int n = 0; n < r.nn(); n++) if (in(r.X[n])) s.insert(n); return s; }
static std::set<int> boxset(Ref const& r, Entity_kind k, In in) {
  std::set<int> s; if (k == Entity_kind::NODE) return nodes(r, in);
  if (k == Entity_kind::FACE) { for (int f = 0; f < r.nf(); f++) if (in(cenf(r, f))) s.insert(f); return s; }
  for (int c = 0; c < r.nc(); c++) if (r.ctype[c] != Entity_type::BOUNDARY_GHOST && in(cellg(r, c).cen)) s.insert(c);
  return s;
}
// in the plane: lines contain no cell of a flat 2D mesh, on surfaces whole cells may lie in a plane
static std::set<int> planeset(Ref const& r, Entity_kind k, In in) {
  if (k == Entity_kind::NODE) return nodes(r, in);
  if (k == Entity_kind::FACE) return allnodes(r, r.fn, in);
  return r.md == 2 ? allnodes(r, r.cn, in) : std::set<int>();
}
static SetP build(Ctx& x, Region* rg, Entity_kind k, bool rev, std::string const& cx) {
  int n0 = x.m->num_sets(), k0 = x.m->num_sets(k);
  SetP s = x.m->build_set_from_region(rg->name(), k, rev); vk::states();
  vk::eq(x.m->num_sets() - n0, 1, "sets registered", cx); vk::eq(x.m->num_sets(k) - k0, 1, "sets of the kind registered", cx);
  vk::ok(x.m->find_meshset(rg->name(), k) == s, "set not found by name", cx);
  return s;
}
static void addr(Ctx& x, Region* r) { x.gm->Add_Region(r); x.id++; }
static std::string nm(char const* k, int i) { return std::string(k) + std::to_string(i); }
static std::vector<double> lat(Ref const& r, int d, double off) { double lo = 1e9, hi = -1e9; for (auto& x : r.X) { lo = std::min(lo, x[d]); hi = std::max(hi, x[d]); } double h = r.name.find("^x4") != std::string::npos ? 2 : r.name.find("^quarter") != std::string::npos ? 0.125 : 0.5; std::vector<double> v; for (double t = lo - h; t <= hi + h + 1e-9; t += h) v.push_back(t + 2 * off * h); return v; }
static void boxes(Ref const& r, bool thin) {
  Ctx x = mkctx(r); std::vector<double> L[3]; for (int d = 0; d < r.sd; d++) L[d] = lat(r, d, 0); for (int d = r.sd; d < 3; d++) L[d] = {0};
  std::vector<std::pair<V3, V3>> B; int q = 0;
  auto pairs = [&](int d) { std::vector<std::pair<double, double>> p; if (d >= r.sd) { p.push_back({0, 0}); return p; } for (size_t i = 0; i < L[d].size(); i++) for (size_t j = i; j < L[d].size(); j++) p.push_back({L[d][i], L[d][j]}); return p; };
  auto A = pairs(0), Bb = pairs(1), C = pairs(2); size_t tot = A.size() * Bb.size() * C.size(); size_t step = thin ? std::max<size_t>(1, tot / 300) : std::max<size_t>(1, tot / 3000); if (step % 2 == 0) step++;
  for (auto& a : A) for (auto& b : Bb) for (auto& c : C) if (q++ % step == 0) B.push_back({P(a.first, b.first, c.first), P(a.second, b.second, c.second)});
  int i = 0;
  for (auto& b : B) {
    auto* rg = new BoxRegion(nm("box", i++), x.id, pt(b.first, r.sd), pt(b.second, r.sd)); addr(x, rg);
    In in = [&](V3 p) { for (int d = 0; d < r.sd; d++) if (p[d] < b.first[d] - 1e-8 || p[d] > b.second[d] + 1e-8) return false; return true; };
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) {
      std::string cx = "box " + ps(pt(b.first, r.sd)) + ps(pt(b.second, r.sd)) + " kind " + std::to_string((int)k); vk::set_current(cx);
      checkset(x, build(x, rg, k, i % 2, ""), k, boxset(r, k, in), i % 2, rg->name(), ""); }
    if (vk::failed()) return;
  }
}
// boxes without extent in one or more directions, through every position of the half-cell lattice
static void flatboxes(Ref const& r) {
  Ctx x = mkctx(r); int i = 0;
  for (int sub = 1; sub < (1 << r.sd); sub++) for (int part = 0; part < 3; part++) {
    std::vector<std::vector<double>> L; for (int d = 0; d < r.sd; d++) { auto l = lat(r, d, 0); if (sub >> d & 1) L.push_back(l); else L.push_back({0}); }
    for (int d = r.sd; d < 3; d++) L.push_back({0});
    for (double a : L[0]) for (double b : L[1]) for (double c : L[2]) {
      V3 lo = P(a, b, c), hi = lo; for (int d = 0; d < r.sd; d++) if (!(sub >> d & 1)) { auto l = lat(r, d, 0); lo[d] = part == 2 ? l[l.size() / 2] : l.front(); hi[d] = part == 1 ? l[l.size() / 2] : l.back(); if (i % 2) std::swap(lo[d], hi[d]); }
      if (part && sub + 1 == (1 << r.sd)) continue;
      auto* rg = new BoxRegion(nm("box", i++), x.id, pt(lo, r.sd), pt(hi, r.sd)); addr(x, rg);
      In in = [&](V3 p) { for (int d = 0; d < r.sd; d++) if (p[d] < std::min(lo[d], hi[d]) - 1e-8 || p[d] > std::max(lo[d], hi[d]) + 1e-8) return false; return true; };
      for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) {
        std::string cx = "box " + ps(pt(lo, r.sd)) + ps(pt(hi, r.sd)) + " kind " + std::to_string((int)k); vk::set_current(cx);
        checkset(x, build(x, rg, k, i % 2, ""), k, boxset(r, k, in), i % 2, rg->name(), ""); }
      if (vk::failed()) return; } }
}
static void planes(Ref const& r) {
  Ctx x = mkctx(r); int i = 0; std::vector<std::pair<V3, V3>> pl;
  for (int d = 0; d < r.sd; d++) for (double t : lat(r, d, 0)) for (int s : {1, -2}) { V3 p = P(0.25, -0.5, 0.75), n = P(0, 0, 0); p[d] = t; n[d] = s; pl.push_back({p, n}); }
  std::vector<V3> nn = r.sd == 2 ? std::vector<V3>{P(1,1), P(1,-1), P(-2,1)} : std::vector<V3>{P(1,1,0), P(0,1,-1), P(1,0,1), P(1,1,1), P(-1,1,0), P(2,0,1)};
  std::set<std::vector<double>> seen; for (auto& n : nn) for (auto& p : r.X) pl.push_back({p, n});
  for (auto& w : pl) {
    V3 p = w.first, n = (1.0 / len(w.second)) * w.second;
    auto* rg = new PlaneRegion(nm("plane", i++), x.id, pt(p, r.sd), pt(w.second, r.sd)); addr(x, rg);
    In in = [&](V3 q) { return std::fabs(dot(q - p, n)) < 1e-9; };
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) {
      std::string cx = "plane " + ps(pt(p, r.sd)) + ps(pt(w.second, r.sd)) + " kind " + std::to_string((int)k); vk::set_current(cx);
      checkset(x, build(x, rg, k, i % 2, ""), k, planeset(r, k, in), i % 2, rg->name(), ""); }
    if (vk::failed()) return;
  }
}
// polygons whose sides avoid the nodes of the mesh
static void polygons(Ref const& r) {
  Ctx x = mkctx(r); int i = 0;
  auto go = [&](std::vector<V3> const& v, In in) {
    std::vector<Point> p; for (auto& a : v) p.push_back(pt(a, r.sd));
    auto* rg = new PolygonRegion(nm("poly", i++), x.id, p.size(), p); addr(x, rg);
    for (Entity_kind k : {Entity_kind::FACE, Entity_kind::NODE}) {
      std::string cx = "polygon "; for (auto& a : p) cx += ps(a); vk::set_current(cx + " kind " + std::to_string((int)k));
      checkset(x, build(x, rg, k, i % 2, ""), k, planeset(r, k, in), i % 2, rg->name(), ""); }
  };
  if (r.sd == 2) {
    for (int d = 0; d < 2; d++) for (double t : lat(r, d, 0)) { auto l = lat(r, 1 - d, 0.25); for (size_t a = 0; a < l.size(); a++) for (size_t b = a + 1; b < l.size(); b++) for (int s = 0; s < 2; s++) {
      V3 u = P(0, 0), v = P(0, 0); u[d] = v[d] = t; u[1-d] = l[s ? b : a]; v[1-d] = l[s ? a : b];
      go({u, v}, [=](V3 q) { return std::fabs(q[d] - t) < 1e-9 && q[1-d] > l[a] && q[1-d] < l[b]; });
      if (vk::failed()) return; } }
    return;
  }
  for (int d = 0; d < 3; d++) { int e = (d + 1) % 3, f = (d + 2) % 3; auto le = lat(r, e, 0.25), lf = lat(r, f, 0.25);
    for (double t : lat(r, d, 0)) for (size_t a = 0; a < le.size(); a++) for (size_t b = a + 1; b < le.size(); b++) for (size_t c = 0; c < lf.size(); c++) { size_t g = lf.size() - 1 - (a % 2); if (g <= c) continue; if (!vk::thorough && (a + b + c) % 3) continue;
      int kind = (a + b + c) % 3; V3 z = P(0, 0, 0); z[d] = t; auto at = [&](double u, double v) { V3 w = z; w[e] = u; w[f] = v; return w; };
      double a0 = le[a], b0 = le[b], c0 = lf[c], g0 = lf[g];
      std::vector<V3> pg = {at(a0, c0), at(b0, c0), at(b0, g0), at(a0, g0)}; if (kind == 1) std::reverse(pg.begin(), pg.end()); if (kind == 2) std::rotate(pg.begin(), pg.begin() + 2, pg.end());
      go(pg, [=](V3 q) { return std::fabs(q[d] - t) < 1e-9 && q[e] > a0 && q[e] < b0 && q[f] > c0 && q[f] < g0; });
      if (vk::failed()) return; } }
}
static void points(Ref const& r) {
  Ctx x = mkctx(r); int i = 0;
  // points well inside one cell
  for (int c = 0; c < r.nc(); c++) if (r.ctype[c] != Entity_type::BOUNDARY_GHOST) { V3 m = cellg(r, c).cen; 
    for (int n = -1; n < (int)r.cn[c].size(); n++) for (double w : {0.5, 0.9, 0.98}) { V3 p = n < 0 ? m : (1 - w) * m + w * r.X[r.cn[c][n]];
      auto* rg = new PointRegion(nm("pt", i++), x.id, pt(p, r.sd)); addr(x, rg); vk::set_current("point " + ps(pt(p, r.sd)) + " in cell " + std::to_string(c));
      if (r.md == r.sd) checkset(x, build(x, rg, Entity_kind::CELL, i % 2, ""), Entity_kind::CELL, {c}, i % 2, rg->name(), "cells");
      checkset(x, build(x, rg, Entity_kind::NODE, i % 2, ""), Entity_kind::NODE, {}, i % 2, rg->name(), "nodes");
      if (vk::failed()) return; } }
  for (int n = 0; n < r.nn(); n++) { auto* rg = new PointRegion(nm("pt", i++), x.id, pt(r.X[n], r.sd)); addr(x, rg); vk::set_current("node " + std::to_string(n)); checkset(x, build(x, rg, Entity_kind::NODE, i % 2, ""), Entity_kind::NODE, {n}, i % 2, rg->name(), "nodes"); }
  for (int d = 0; d < r.sd; d++) for (double s : {-20., 20.}) { V3 p = r.X[0]; p[d] += s; auto* rg = new PointRegion(nm("pt", i++), x.id, pt(p, r.sd)); addr(x, rg); vk::set_current("point outside " + ps(pt(p, r.sd)));
    if (r.md == r.sd) checkset(x, build(x, rg, Entity_kind::CELL, true, ""), Entity_kind::CELL, {}, true, rg->name(), "cells"); checkset(x, build(x, rg, Entity_kind::NODE, true, ""), Entity_kind::NODE, {}, true, rg->name(), "nodes"); }
}
static void labelled(Ref const& r) {
  Ctx x = mkctx(r); int i = 0;
  char const* ks[3] = {"NODE", "FACE", "CELL"}; Entity_kind kk[3] = {Entity_kind::NODE, Entity_kind::FACE, Entity_kind::CELL};
  for (int k = 0; k < 3; k++) for (int m = 0; m < 8; m++) for (int q = 0; q < 2; q++) {
    std::set<int> want; auto const& t = types(r, kk[k]); VI o, g;
    for (size_t e = 0; e < t.size(); e++) if (t[e] != Entity_type::BOUNDARY_GHOST && (m >> (e % 3) & 1)) { want.insert(e); (t[e] == Entity_type::PARALLEL_OWNED ? o : g).push_back(e); }
    std::string lab = nm("label", m); x.m->labels[std::make_pair(lab, (int)kk[k])] = {o, g};
    for (int k2 = 0; k2 < 3; k2++) if (k2 != k) x.m->labels[std::make_pair(lab, (int)kk[k2])] = {VI{0}, VI()};
    auto* rg = new LabeledSetRegion(nm("ls", i++), x.id, std::string(q ? "Entity_kind::" : "") + ks[k], "file", "fmt", lab); addr(x, rg); vk::set_current(lab + " " + ks[k]);
    checkset(x, build(x, rg, kk[k], q, ""), kk[k], want, q, rg->name(), ""); }
}
// logical regions: every operation over lists of components
static void logical(Ref const& r, Entity_kind k, int first) {
  std::vector<V3> X = r.X; V3 lo = X[0], hi = X[0]; for (auto& p : X) for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], p[d]); hi[d] = std::max(hi[d], p[d]); }
  struct B { std::string n; V3 a, b; int type; };
  V3 mid = 0.5 * (lo + hi); V3 e = P(0.01, 0.01, 0.01);
  std::vector<B> bs = {{"left", lo - e, V3{{mid[0], hi[1], hi[2]}} + e, 0}, {"low", lo - e, V3{{hi[0], mid[1], hi[2]}} + e, 0}, {"corner", mid - e, hi + e, 0}, {"lab", lo, hi, 1}, {"flat", lo, hi, 2}};
  int nb = bs.size(); std::vector<VI> lists; for (int a = 0; a < nb; a++) { lists.push_back({a}); for (int b = 0; b < nb; b++) { lists.push_back({a, b}); for (int c = 0; c < nb; c++) if (vk::thorough || a != b) lists.push_back({a, b, c}); } }
  auto comp = [&](int b) -> std::set<int> {
    if (bs[b].type == 0) return boxset(r, k, [&](V3 p) { for (int d = 0; d < 3; d++) if (p[d] < bs[b].a[d] - 1e-8 || p[d] > bs[b].b[d] + 1e-8) return false; return true; });
    if (bs[b].type == 2) return planeset(r, k, [&](V3 p) { return std::fabs(p[2] - lo[2]) < 1e-9; });
    std::set<int> s; auto const& t = types(r, k); for (size_t i = 0; i < t.size(); i++) if (t[i] != Entity_type::BOUNDARY_GHOST && i % 3 != 1) s.insert(i); return s; };
  std::vector<std::set<int>> comps; for (int b = 0; b < nb; b++) comps.push_back(comp(b));
  auto const& t = types(r, k); std::set<int> all; for (size_t i = 0; i < t.size(); i++) if (t[i] != Entity_type::BOUNDARY_GHOST) all.insert(i);
  auto algebra = [&](int op, std::vector<std::set<int>> a) { std::set<int> w = a[0]; for (size_t i = 1; i < a.size(); i++) { if (op == 0 || op == 3) w.insert(a[i].begin(), a[i].end()); else { std::set<int> z; for (int q : w) if ((a[i].count(q) > 0) == (op == 1)) z.insert(q); w = z; } }
    if (op == 3) { std::set<int> z; for (int q : all) if (!w.count(q)) z.insert(q); w = z; } return w; };
  Bool_type ops[4] = {Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT, Bool_type::COMPLEMENT};
  char const* on[4] = {"Union", "Intersect", "Subtract", "Complement"};
  for (auto& l : lists) if (l[0] == first) for (int op = 0; op < 4; op++) for (int mode = 0; mode < 8; mode++) {
    // mode: bit 0 declared before its components, bit 1 components built beforehand, bit 2 temporary
    Ctx x; x.r = r; x.gm = new GeometricModel(3); x.id = 1; x.m = make(r, Req(), x.gm);
    std::vector<std::string> names; std::vector<std::set<int>> a; for (int b : l) { names.push_back(bs[b].n); a.push_back(comps[b]); }
    LifeCycle_type lc = mode & 4 ? LifeCycle_type::TEMPORARY : LifeCycle_type::PERMANENT;
    auto* lr = mode & 2 ? new LogicalRegion("logic", 77, ops[op], names, lc) : new LogicalRegion("logic", 77, on[op], names, lc);
    auto decl = [&] { for (auto& b : bs) { Region* g; if (b.type == 0) g = new BoxRegion(b.n, x.id, pt(b.a, 3), pt(b.b, 3)); else if (b.type == 2) g = new PlaneRegion(b.n, x.id, Point(0, 0, lo[2]), Point(0., 0., 1.)); else { g = new LabeledSetRegion(b.n, x.id, k == Entity_kind::CELL ? "CELL" : k == Entity_kind::FACE ? "FACE" : "NODE", "f", "f", "L"); VI o, gh; for (int i : comps[3]) (t[i] == Entity_type::PARALLEL_OWNED ? o : gh).push_back(i); x.m->labels[std::make_pair(std::string("L"), (int)k)] = {o, gh}; } addr(x, g); } };
    if (mode & 1) { x.gm->Add_Region(lr); decl(); } else { decl(); x.gm->Add_Region(lr); }
    // a nested one
    auto* nest = new LogicalRegion("nest", 78, Bool_type::SUBTRACT, {"low", "logic"}); x.gm->Add_Region(nest);
    std::string cx = std::string(on[op]) + vk::str(names) + " mode " + std::to_string(mode); vk::set_current(cx);
    bool rev = l.size() % 2; std::map<std::string, SetP> pre;
    if (mode & 2) for (int b : l) if (!pre.count(bs[b].n)) pre[bs[b].n] = x.m->build_set_from_region(bs[b].n, k, rev);
    vk::states();
    SetP s = x.m->build_set_from_region("logic", k, rev); std::set<int> w = algebra(op, a);
    checkset(x, s, k, w, rev, "logic", "result");
    SetP f = x.m->find_meshset("logic", k); if (mode & 4) vk::ok(f == nullptr, "temporary result registered"); else vk::ok(f == s, "result not found by name");
    for (int b : l) { SetP c = x.m->find_meshset(bs[b].n, k); if (!vk::ok(c != nullptr, "component set lost", bs[b].n)) break; if (mode & 2) vk::ok(c == pre[bs[b].n], "component set replaced"); checkset(x, c, k, comps[b], rev, bs[b].n, "component"); }
    std::map<std::string, int> cnt; for (auto& q : x.m->sets()) cnt[q->name()]++; for (auto& q : cnt) vk::eq(q.second, 1, "set registered more than once", q.first);
    std::set<std::string> exp(names.begin(), names.end()); if (!(mode & 4)) exp.insert("logic"); std::set<std::string> have; for (auto& q : cnt) have.insert(q.first); vk::ok(have == exp, "registered sets", vk::str(std::vector<std::string>(have.begin(), have.end())));
    checkset(x, x.m->build_set_from_region("nest", k, rev), k, algebra(2, {comps[1], w}), rev, "nest", "nested");
    checkset(x, s, k, w, rev, "logic", "result after nesting");
    if (vk::failed()) return;
  }
}
// what cannot define a set is refused and leaves nothing behind
static void refusals(Ref const& r) {
  int sd = r.sd; char const* kn[3] = {"CELL", "FACE", "NODE"}; Entity_kind kk[3] = {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE};
  for (int k = 0; k < 3; k++) for (int what = 0; what < 8; what++) {
    if ((what < 4 || what > 5) && sd != 3) continue;
    Ctx x = mkctx(r); Point lo(sd), hi(sd); for (int d = 0; d < sd; d++) { lo[d] = -1e5; hi[d] = 1e5; }
    addr(x, new BoxRegion("all", x.id, lo, hi)); addr(x, new PointRegion("spot", x.id, pt(r.X[0], sd)));
    std::vector<Point> pp; for (int i = 0; i < sd; i++) { Point p(sd); for (int d = 0; d < sd; d++) p[d] = d == i; pp.push_back(p); } addr(x, new PolygonRegion("poly", x.id, pp.size(), pp));
    x.m->labels[std::make_pair(std::string("L"), (int)kk[k])] = {VI{0}, VI()}; 
    std::string nm; bool sets = false;
    if (what < 2) { nm = "lab"; addr(x, new LabeledSetRegion(nm, x.id, std::string(what ? "Entity_kind::" : "") + kn[(k + 1) % 3], "f", "f", "L")); }
    else if (what < 4) { if (sd != 3) continue; nm = "lab"; std::string e[2] = {"", "EDGE"}; addr(x, new LabeledSetRegion(nm, x.id, e[what - 2], "f", "f", "L")); }
    else if (what == 4) { if (k == 2) continue; nm = k == 0 ? "poly" : "spot"; }
    else if (what == 5) nm = "nothing of the kind";
    else { sets = true; nm = "logic"; std::vector<std::string> c = what == 6 ? std::vector<std::string>{"missing", "all"} : std::vector<std::string>{"all", "missing"}; addr(x, new LogicalRegion(nm, x.id, Bool_type::UNION, c)); }
    std::string cx = nm + " as " + kn[k] + " what " + std::to_string(what); vk::set_current(cx);
    for (int rep = 0; rep < 2; rep++) { bool t = false; SetP s; try { s = x.m->build_set_from_region(nm, kk[k], rep); } catch (Errors::Message const&) { t = true; } vk::states(); vk::ok(t, "a set was built from a region that does not fit or exist", cx); vk::ok(x.m->find_meshset(nm, kk[k]) == nullptr, "a refused set was registered", cx); }
    vk::eq((int)x.m->num_sets(), sets && what == 7 && x.m->find_meshset("all", kk[k]) ? 1 : 0, "sets registered by refused requests", cx);
    std::set<int> all; auto const& t = types(r, kk[k]); for (size_t i = 0; i < t.size(); i++) all.insert(i);
    if (!x.m->find_meshset("all", kk[k])) { SetP s = x.m->build_set_from_region("all", kk[k], true); std::set<int> w; for (int i : all) if (t[i] != Entity_type::BOUNDARY_GHOST) w.insert(i); checkset(x, s, kk[k], w, true, "all", cx + " afterwards"); }
    if (vk::failed()) return; }
}
// many components with like names, and chains of logical regions made of one another
static void longlogical(Ref const& r, Entity_kind k, int rot) {
  auto nm = vk::names(); int n = nm.size(); std::vector<V3> lo, hi; std::vector<std::set<int>> comps; V3 a = r.X[0], b = r.X[0]; for (auto& p : r.X) for (int d = 0; d < 3; d++) { a[d] = std::min(a[d], p[d]); b[d] = std::max(b[d], p[d]); }
  for (int i = 0; i < n; i++) { V3 l = a - P(0.01, 0.01, 0.01), h = b + P(0.01, 0.01, 0.01); int d = i % 3; l[d] += (i / 3 % 5 - 1) * 0.3 * (b[d] - a[d]) / 2; if (i % 4) h[(d + 1) % 3] -= (i % 7) * 0.15 * (b[d] - a[d]); lo.push_back(l); hi.push_back(h); comps.push_back(boxset(r, k, [&](V3 p) { for (int e = 0; e < 3; e++) if (p[e] < l[e] - 1e-8 || p[e] > h[e] + 1e-8) return false; return true; })); }
  auto const& t = types(r, k); std::set<int> all; for (size_t i = 0; i < t.size(); i++) if (t[i] != Entity_type::BOUNDARY_GHOST) all.insert(i);
  auto algebra = [&](int op, std::vector<std::set<int>> x) { std::set<int> w = x[0]; for (size_t i = 1; i < x.size(); i++) { std::set<int> z = w; if (op == 0 || op == 3) z.insert(x[i].begin(), x[i].end()); else { z.clear(); for (int q : w) if ((x[i].count(q) > 0) == (op == 1)) z.insert(q); } w = z; } if (op == 3) { std::set<int> z; for (int q : all) if (!w.count(q)) z.insert(q); w = z; } return w; };
  Bool_type ops[4] = {Bool_type::UNION, Bool_type::INTERSECT, Bool_type::SUBTRACT, Bool_type::COMPLEMENT};
  auto world = [&](Ctx& x) { x.r = r; x.gm = new GeometricModel(3); x.id = 1; x.m = make(r, Req(), x.gm); for (int i = 0; i < n; i++) { int j = (i + rot) % n; addr(x, new BoxRegion(nm[j], x.id, pt(lo[j], 3), pt(hi[j], 3))); } };
  for (int op = 0; op < 4; op++) for (int m : {4, 5, 6, 7, 8, 9, 12, 16, 17, 33, n}) { Ctx x; world(x); std::vector<std::string> c; std::vector<std::set<int>> w; for (int i = 0; i < m; i++) { int j = (i * 7 + rot) % n; c.push_back(nm[j]); w.push_back(comps[j]); }
    addr(x, new LogicalRegion("long", x.id, ops[op], c)); std::string cx = "operation " + std::to_string(op) + " on " + std::to_string(m) + " regions"; vk::set_current(cx); vk::states(); checkset(x, x.m->build_set_from_region("long", k, m % 2), k, algebra(op, w), m % 2, "long", cx);
    for (int i = 0; i < m; i++) { SetP s = x.m->find_meshset(c[i], k); if (!s) { vk::fail("component set lost", cx + " " + c[i]); break; } checkset(x, s, k, w[i], m % 2, c[i], cx + " component " + c[i]); } vk::eq(x.m->num_sets(), m + 1, "number of sets", cx); vk::beat(); if (vk::failed()) return; }
  // chains: the i-th is made of a box and the one before it, declared forwards or backwards
  for (int way = 0; way < 4; way++) { Ctx x; world(x); int m = 12; std::vector<std::set<int>> w; std::vector<Region*> ch; for (int i = 0; i < m; i++) { int op = (i + rot + way) % 4, j = (i * 5 + rot) % n; if (op == 1 && i % 2) op = 0; std::string prev = i ? "chain" + std::to_string(i - 1) : nm[(j + 1) % n]; std::set<int> pw = i ? w.back() : comps[(j + 1) % n]; bool fw = (i + way) % 2; std::vector<std::string> c = fw ? std::vector<std::string>{nm[j], prev} : std::vector<std::string>{prev, nm[j]}; w.push_back(algebra(op, fw ? std::vector<std::set<int>>{comps[j], pw} : std::vector<std::set<int>>{pw, comps[j]})); ch.push_back(new LogicalRegion("chain" + std::to_string(i), 1000 + i, ops[op], c)); }
    if (way & 1) std::reverse(ch.begin(), ch.end()); for (auto g : ch) x.gm->Add_Region(g); vk::set_current("chain of regions"); vk::states(); checkset(x, x.m->build_set_from_region("chain11", k, true), k, w[11], true, "chain11", "chain of regions");
    for (int i = 0; i < m; i++) { std::string c = "chain" + std::to_string(i); SetP s = x.m->find_meshset(c, k); if (vk::ok((bool)s, "component set lost", c)) checkset(x, s, k, w[i], true, c, c + " of a chain of regions"); } vk::beat(); if (vk::failed()) return; }
}
// a mesh of many entities: a few regions of every type
static void many(Ref const& r) {
  Ctx x = mkctx(r); int i = 0; V3 a = r.X[0], b = r.X[0]; for (auto& p : r.X) for (int d = 0; d < r.sd; d++) { a[d] = std::min(a[d], p[d]); b[d] = std::max(b[d], p[d]); }
  auto part = [&](double f, double g) { std::pair<V3, V3> q(a, b); for (int d = 0; d < r.sd; d++) { q.first[d] = a[d] + f * (b[d] - a[d]) + 0.01; q.second[d] = a[d] + g * (b[d] - a[d]) + 0.01; } return q; };
  for (auto fg : {std::make_pair(-0.1, 1.1), std::make_pair(0.3, 0.9), std::make_pair(0.97, 1.0), std::make_pair(-0.2, -0.1)}) { auto q = part(fg.first, fg.second); auto* rg = new BoxRegion(nm("box", i++), x.id, pt(q.first, r.sd), pt(q.second, r.sd)); addr(x, rg); In in = [&](V3 p) { for (int d = 0; d < r.sd; d++) if (p[d] < q.first[d] - 1e-8 || p[d] > q.second[d] + 1e-8) return false; return true; };
    for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) { vk::set_current(rg->name()); checkset(x, build(x, rg, k, i % 2, ""), k, boxset(r, k, in), i % 2, rg->name(), ""); vk::beat(); } }
  for (double f : {0.5, 1.0}) { V3 p = a, n = P(0, 0, 0); n[0] = 1; p[0] = a[0] + f * (b[0] - a[0]); auto* rg = new PlaneRegion(nm("plane", i++), x.id, pt(p, r.sd), pt(n, r.sd)); addr(x, rg); In in = [&](V3 q) { return std::fabs(q[0] - p[0]) < 1e-9; }; for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) { vk::set_current(rg->name()); checkset(x, build(x, rg, k, i % 2, ""), k, planeset(r, k, in), i % 2, rg->name(), ""); vk::beat(); } }
  for (int c : {0, 255, 256, 1000, 1727, 32767, 32768, 34199}) if (c < r.nc() && r.ctype[c] != Entity_type::BOUNDARY_GHOST) { auto* rg = new PointRegion(nm("pt", i++), x.id, pt(cellg(r, c).cen, r.sd)); addr(x, rg); vk::set_current("point in cell " + std::to_string(c)); checkset(x, build(x, rg, Entity_kind::CELL, i % 2, ""), Entity_kind::CELL, {c}, i % 2, rg->name(), "cells"); vk::beat(); }
}
VK_CHECK("C16", "exploration", "every box on a half-cell lattice (evenly thinned to about 300 per mesh, thorough 3000), every box without extent in some directions, axis and oblique planes, polygons between nodes, points well inside every cell / at every node / outside, labelled sets with every residue pattern; logical regions: all lists of up to 3 components (boxes, a plane, a labelled set) x 4 operations x declared before or after its components x components built before or not x temporary or not, plus one nested; up to 43 components and chains of 12 logical regions; regions that cannot define a set of the kind asked for; 2D, 3D and surface meshes with ghosts (also of 1728 and 34200 cells); cells, faces and nodes; a case is a mesh with labelling and region type") {
  std::vector<Desc> ds; for (auto& d : family2d()) if (d.cells.size() > 1) ds.push_back(d); for (auto& d : family3d()) if (d.cells.size() > 1) ds.push_back(d); for (auto& d : familysurf()) ds.push_back(d);
  // cells and faces with many nodes on one line, at the start or at the end of their lists of nodes
  for (int rot : {0, 10}) { Desc d; d.md = d.sd = 2; d.name = "comb" + std::to_string(rot); int n = 10; for (int j = 0; j < n; j++) d.X.push_back(P(0.5 * j, 0)); for (int j = 0; j < n; j++) d.X.push_back(P(0.5 * j, -2)); d.X.push_back(P(4.5, 1)); d.X.push_back(P(0, 1));
    VI top; for (int j = 0; j < n; j++) top.push_back(j); top.push_back(2 * n); top.push_back(2 * n + 1); std::rotate(top.begin(), top.begin() + rot, top.end()); Desc::C k; k.nodes = top; d.cells.push_back(k); for (int j = 0; j + 1 < n; j += 3) { k.nodes = {j + 3, j + 2, j + 1, j, n + j, n + j + 1, n + j + 2, n + j + 3}; std::rotate(k.nodes.begin(), k.nodes.begin() + (rot ? 4 : 0), k.nodes.end()); d.cells.push_back(k); }
    if (rot) ds.push_back(extrude(d, 1)); d.sd = 3; d.name += "surf"; for (auto& q : d.X) q[2] = q[1] > 0 ? q[1] : -0.5 * q[1]; ds.push_back(d); }
  ds.push_back(poly2("sliver", {P(0,0), P(8,0), P(8,1), P(0,1), P(4,1.25)}, {{0,1,2,3}, {3,2,4}}));
  ds.push_back(extrude(ds.back(), 1));
  ds.push_back(quads(5, 4)); ds.push_back(hexes(1, 5, 1)); ds.push_back(hexes(4, 1, 2)); ds.push_back(quads(7, 6)); ds.push_back(hexes(3, 3, 3)); if (vk::thorough) ds.push_back(hexes(5, 4, 3));
  auto scaled = [](Desc d, double s, V3 t, char const* n) { for (auto& p : d.X) p = s * p + t; d.name += n; return d; }; ds.push_back(scaled(quads(3, 2), 4, P(1024, -2048), "^x4")); ds.push_back(scaled(hexes(2, 2, 1), 0.25, P(-64, 256, 32), "^quarter"));
  Exceptions::set_exception_behavior_raise();
  for (auto& d : ds) { auto L = labellings(d.cells.size(), false, true); for (size_t i = 0; i < L.size(); i++) {
    Opt o = L[i]; if (!vk::thorough && i > (d.cells.size() > 20 ? 0 : 3)) continue; if (d.cells.size() > 20 && i > 3) continue; if (o.bghost && d.md < 2) continue; o.flip = i % 4; Ref r = elaborate(d, o);
    vk::run("boxes " + r.name, [=] { boxes(r, !vk::thorough); }); vk::run("flat boxes " + r.name, [=] { flatboxes(r); }); vk::run("planes " + r.name, [=] { planes(r); }); if (d.name.find("sliver") != 0) vk::run("polygons " + r.name, [=] { polygons(r); });
    if (d.name.find("ell^") != 0 && d.name.find("twoface^") != 0) vk::run("points " + r.name, [=] { points(r); }); vk::run("refusals " + r.name, [=] { refusals(r); }); if (r.sd == 3) vk::run("labelled " + r.name, [=] { labelled(r); });
    if (r.sd == 3 && (vk::thorough || i == 0 || i == 3)) for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) for (int f = 0; f < 5; f++) vk::run("logical " + r.name + " kind " + std::to_string((int)k) + " first " + std::to_string(f), [=] { logical(r, k, f); });
  } }
  { Opt o; for (int c = 0; c < 27; c++) o.ghost.push_back(c % 4 == 3); o.bghost = true; Ref r = elaborate(hexes(3, 3, 3), o); for (Entity_kind k : {Entity_kind::CELL, Entity_kind::FACE, Entity_kind::NODE}) for (int rot : {0, 11, 30}) vk::run("many components " + std::to_string((int)k) + " from " + std::to_string(rot), [=] { longlogical(r, k, rot); }); }
  for (auto g : giants()) vk::run("many entities " + g.d.name + (g.o.ghost.size() ? " ghosts" : ""), [&] { many(elaborate(g.d, g.o)); });
}
